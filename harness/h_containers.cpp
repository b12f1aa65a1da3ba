// Fixed-capacity containers against reference containers (C18): random operation sequences over three objects of each kind,
// full comparison and life-time accounting after every operation, misuse probed in forked children.
#include "iox/fixed_position_container.hpp"
#include "iox/forward_list.hpp"
#include "iox/list.hpp"
#include "iox/logging.hpp"
#include "iox/stack.hpp"
#include "iox/uninitialized_array.hpp"
#include "iox/vector.hpp"
#include "life.hpp"
#include <algorithm>
#include <memory>

using namespace vh;

namespace
{
std::string g_trace;
void tr(const std::string& s)
{
    g_trace += s;
    if (g_trace.size() > 3000) g_trace.erase(0, 1500);
}
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s %s; history: %s", kind, vh::fmt(__VA_ARGS__).c_str(), g_trace.substr(g_trace.size() > 900 ? g_trace.size() - 900 : 0).c_str())

// trivially copyable, but neither trivial nor default constructible to zero
struct Tri
{
    uint64_t v{77};
    uint32_t w{uint32_t(77 * 3)};
    Tri() = default;
    Tri(uint64_t x) : v(x), w(uint32_t(x * 3)) {}
    bool operator==(const Tri& o) const { return v == o.v && w == o.w; }
    operator uint64_t() const { return w == uint32_t(v * 3) ? v : ~0ull; }
};
static_assert(std::is_trivially_copyable<Tri>::value && !std::is_trivial<Tri>::value, "");

template <typename T> constexpr uint64_t dflt() { return 0; }
template <> constexpr uint64_t dflt<Tri>() { return 77; }

using Model = std::vector<uint64_t>;
Rng* R;
uint64_t g_val;
uint64_t val() { return R->chance(150) ? R->below(4) + 1 : ++g_val; }

// memory that is not zero before construction and whose borders ASan watches
template <typename C>
struct Holder
{
    void* mem{nullptr};
    C* c{nullptr};
    template <typename... A>
    void make(A&&... a)
    {
        mem = ::operator new(sizeof(C));
        memset(mem, int(R->next() & 0xff), sizeof(C));
        c = new (mem) C(std::forward<A>(a)...);
    }
    void drop()
    {
        if (!c) return;
        c->~C();
        ::operator delete(mem);
        c = nullptr;
    }
    ~Holder() { drop(); }
    C& operator*() { return *c; }
    C* operator->() { return c; }
};

template <typename C, typename T>
struct Base
{
    const char* kind;
    Holder<C> o[3];
    Model m[3];
    int64_t live0{Life::live()};
    void lifeCheck(const char* op)
    {
        if (!std::is_same<T, Life>::value) return;
        int64_t want = live0;
        for (auto& x : m) want += int64_t(x.size());
        CK(Life::live() == want, "leak", "%lld elements are alive after %s, expected %lld", (long long)(Life::live() - live0), op, (long long)(want - live0));
        count("life_checks");
    }
    std::string show(const Model& v)
    {
        std::string s = "[";
        for (auto x : v) s += std::to_string(x) + " ";
        return s + "]";
    }
    void cmp(size_t k, const Model& got, const char* op)
    {
        CK(got == m[k], "content", "object %zu holds %s instead of %s after %s", k, show(got).c_str(), show(m[k]).c_str(), op);
        count("comparisons");
    }
};

template <typename T, uint64_t CAP>
struct VecTest : Base<iox::vector<T, CAP>, T>
{
    using C = iox::vector<T, CAP>;
    using B = Base<C, T>;
    using B::o; using B::m; using B::kind;
    void verify(const char* op)
    {
        for (size_t k = 0; k < 3; ++k)
        {
            const C& c = *o[k];
            Model g;
            for (uint64_t i = 0; i < c.size() && i < CAP; ++i) g.push_back(uint64_t(c[i]));
            B::cmp(k, g, op);
            Model g2;
            for (auto& x : *o[k]) g2.push_back(uint64_t(x));
            CK(g2 == g && c.end() - c.begin() == std::ptrdiff_t(g.size()) && c.data() == c.begin(), "iteration", "iteration disagrees with index access after %s", op);
            CK(c.size() == m[k].size() && c.empty() == m[k].empty() && c.capacity() == CAP, "size", "size() is %llu", (unsigned long long)c.size());
            if (!m[k].empty()) CK(uint64_t(c.front()) == m[k].front() && uint64_t(c.back()) == m[k].back() && uint64_t(c.at(m[k].size() - 1)) == m[k].back(), "access", "front/back/at are wrong after %s", op);
            for (size_t j = 0; j < 3; ++j) CK((*o[k] == *o[j]) == (m[k] == m[j]) && (*o[k] != *o[j]) == (m[k] != m[j]), "equality", "operator== of %zu and %zu is wrong", k, j);
        }
        B::lifeCheck(op);
    }
    void run()
    {
        kind = "vector";
        for (size_t k = 0; k < 3; ++k)
        {
            uint64_t n = R->below(CAP + 3);
            if (R->chance(300)) o[k].make();
            else if (R->chance(500)) { o[k].make(n); m[k].assign(std::min(n, CAP), dflt<T>()); }
            else { uint64_t v = val(); o[k].make(n, T(v)); m[k].assign(std::min(n, CAP), v); }
        }
        verify("construction");
        unsigned ops = unsigned(R->range(10, 60));
        for (unsigned i = 0; i < ops; ++i)
        {
            size_t a = R->below(3), b = R->below(3);
            auto& c = *o[a];
            auto& x = m[a];
            uint64_t op = R->below(16), v = val();
            count("operations");
            tr(fmt("%llu(%zu,%zu,%llu) ", (unsigned long long)op, a, b, (unsigned long long)v));
            switch (op)
            {
            case 0: { bool f = x.size() < CAP; CK(c.push_back(T(v)) == f, "result", "push_back returned %d", !f); if (f) x.push_back(v); break; }
            case 1: { bool f = x.size() < CAP; T t(v); CK(c.push_back(t) == f, "result", "push_back returned %d", !f); CK(uint64_t(t) == v, "source", "push_back changed its argument"); if (f) x.push_back(v); break; }
            case 2: { bool f = x.size() < CAP; CK(c.emplace_back(v) == f, "result", "emplace_back returned %d", !f); if (f) x.push_back(v); break; }
            case 3: case 4: case 5:
            {
                uint64_t p = R->below(CAP + 2);
                bool f = x.size() < CAP && p <= x.size();
                CK(c.emplace(p, v) == f, "result", "emplace at %llu of %zu returned %d", (unsigned long long)p, x.size(), !f);
                if (f) x.insert(x.begin() + std::ptrdiff_t(p), v);
                break;
            }
            case 6: { bool f = !x.empty(); CK(c.pop_back() == f, "result", "pop_back returned %d", !f); if (f) x.pop_back(); break; }
            case 7: case 8: case 9:
            {
                uint64_t p = R->below(CAP + 1);
                bool f = p < x.size();
                CK(c.erase(c.begin() + p) == f, "result", "erase at %llu of %zu returned %d", (unsigned long long)p, x.size(), !f);
                if (f) x.erase(x.begin() + std::ptrdiff_t(p));
                break;
            }
            case 10:
            {
                uint64_t n = R->below(CAP + 3);
                bool f = n <= CAP;
                if (R->chance(500)) { CK(c.resize(n) == f, "result", "resize to %llu returned %d", (unsigned long long)n, !f); if (f) x.resize(n, std::is_trivial<T>::value ? 0 : dflt<T>()); }
                else { CK(c.resize(n, v) == f, "result", "resize to %llu returned %d", (unsigned long long)n, !f); if (f) x.resize(n, v); }
                break;
            }
            case 11: if (R->chance(300)) { c.clear(); x.clear(); } break;
            case 12: c = *o[b]; { Model t = m[b]; x = t; } break;
            case 13: if (a == b) { auto& self = c; c = std::move(self); } else { c = std::move(*o[b]); x = m[b]; m[b].clear(); } break;
            case 14:
                if (a != b) { o[a].drop(); o[a].make(static_cast<const C&>(*o[b])); x = m[b]; }
                break;
            case 15:
                if (a != b) { o[a].drop(); o[a].make(std::move(*o[b])); x = m[b]; m[b].clear(); }
                break;
            }
            verify("operation");
        }
        if (R->chance(30))
        {
            auto& c = *o[0];
            uint64_t p = m[0].size() + R->below(4);
            VH_TERMINATES(c.at(p), "misuse", "vector::at(%llu) of %zu elements", (unsigned long long)p, m[0].size());
            c.clear();
            m[0].clear();
            if (R->chance(500)) VH_TERMINATES(c.front(), "misuse", "vector::front() of an empty vector");
            else VH_TERMINATES(c.back(), "misuse", "vector::back() of an empty vector");
        }
        for (auto& x : m) x.clear();
        for (auto& x : o) x.drop();
        B::lifeCheck("destruction");
    }
};

template <typename T, uint64_t CAP>
struct StackTest : Base<iox::stack<T, CAP>, T>
{
    using C = iox::stack<T, CAP>;
    using B = Base<C, T>;
    using B::o; using B::m; using B::kind;
    void run()
    {
        kind = "stack";
        for (auto& x : o) x.make();
        unsigned ops = unsigned(R->range(10, 60));
        for (unsigned i = 0; i < ops; ++i)
        {
            size_t a = R->below(3), b = R->below(3);
            auto& c = *o[a];
            auto& x = m[a];
            uint64_t op = R->below(10), v = val();
            tr(fmt("s%llu(%zu,%zu,%llu) ", (unsigned long long)op, a, b, (unsigned long long)v));
            count("operations");
            if (op < 4) { bool f = x.size() < CAP; CK(c.push(v) == f, "result", "push returned %d", !f); if (f) x.push_back(v); }
            else if (op < 6)
            {
                auto r = c.pop();
                CK(r.has_value() == !x.empty(), "result", "pop of %zu elements returned %d", x.size(), r.has_value());
                if (r) { CK(uint64_t(*r) == x.back(), "content", "pop returned %llu instead of %llu", (unsigned long long)uint64_t(*r), (unsigned long long)x.back()); x.pop_back(); }
            }
            else if (op == 6) { c = *o[b]; Model t = m[b]; x = t; }
            else if (op == 7) { if (a != b) { c = std::move(*o[b]); x = m[b]; m[b].clear(); } else { auto& s = c; c = std::move(s); } }
            else if (op == 8 && a != b) { o[a].drop(); if (R->chance(500)) { o[a].make(static_cast<const C&>(*o[b])); x = m[b]; } else { o[a].make(std::move(*o[b])); x = m[b]; m[b].clear(); } }
            else if (op == 9 && R->chance(200)) { c.clear(); x.clear(); }
            for (size_t k = 0; k < 3; ++k) CK(o[k]->size() == m[k].size() && o[k]->capacity() == CAP, "size", "size is %llu instead of %zu", (unsigned long long)o[k]->size(), m[k].size());
            B::lifeCheck("operation");
        }
        for (size_t k = 0; k < 3; ++k)
        {
            Model g;
            while (auto r = o[k]->pop()) { g.insert(g.begin(), uint64_t(*r)); if (g.size() > CAP) break; }
            B::cmp(k, g, "popping everything");
            m[k].clear();
        }
        for (auto& x : o) x.drop();
        B::lifeCheck("destruction");
    }
};

template <typename T, uint64_t CAP>
struct ListTest : Base<iox::list<T, CAP>, T>
{
    using C = iox::list<T, CAP>;
    using B = Base<C, T>;
    using B::o; using B::m; using B::kind;
    std::vector<std::pair<typename C::iterator, uint64_t>> its[3]; // remembered iterators and what they must designate
    typename C::iterator at(size_t k, size_t p)
    {
        auto it = o[k]->begin();
        for (size_t i = 0; i < p; ++i) ++it;
        return it;
    }
    void verify(const char* op)
    {
        for (size_t k = 0; k < 3; ++k)
        {
            const C& c = *o[k];
            Model g, rev;
            for (auto it = c.begin(); it != c.end() && g.size() <= CAP; ++it) g.push_back(uint64_t(*it));
            B::cmp(k, g, op);
            if (!g.empty())
            {
                auto it = o[k]->end();
                for (size_t i = 0; i < g.size(); ++i) { --it; rev.insert(rev.begin(), uint64_t(*it)); }
                CK(rev == g && it == o[k]->begin(), "iteration", "backward iteration gives %s instead of %s after %s", B::show(rev).c_str(), B::show(g).c_str(), op);
                --it;
                CK(it == o[k]->begin(), "iteration", "decrementing begin() moved");
                CK(uint64_t(c.front()) == g.front() && uint64_t(c.back()) == g.back(), "access", "front/back are wrong after %s", op);
            }
            auto e = c.cend();
            ++e;
            CK(e == c.end(), "iteration", "incrementing end() moved");
            CK(c.size() == g.size() && c.empty() == g.empty() && c.full() == (g.size() == CAP) && c.capacity() == CAP && c.max_size() == CAP, "size", "size/empty/full are wrong after %s", op);
            for (auto& x : its[k]) { CK(uint64_t(*x.first) == x.second, "iterator", "an iterator that must stay valid designates %llu instead of %llu after %s", (unsigned long long)uint64_t(*x.first), (unsigned long long)x.second, op); count("iterator_checks"); }
        }
        B::lifeCheck(op);
    }
    void forget(size_t k, size_t p)
    {
        auto it = at(k, p);
        for (size_t i = 0; i < its[k].size();)
            if (its[k][i].first == it) its[k].erase(its[k].begin() + std::ptrdiff_t(i));
            else ++i;
    }
    void run()
    {
        kind = "list";
        for (auto& x : o) x.make();
        unsigned ops = unsigned(R->range(10, 60));
        for (unsigned i = 0; i < ops; ++i)
        {
            size_t a = R->below(3), b = R->below(3);
            auto& c = *o[a];
            auto& x = m[a];
            uint64_t op = R->below(18), v = val();
            bool room = x.size() < CAP;
            size_t p = R->below(x.size() + 1);
            auto pos = [&](size_t q) { return x.begin() + std::ptrdiff_t(q); };
            tr(fmt("l%llu(%zu,%zu,%zu,%llu) ", (unsigned long long)op, a, b, p, (unsigned long long)v));
            count("operations");
            switch (op)
            {
            case 0: CK(c.push_back(T(v)) == room, "result", "push_back returned %d", !room); if (room) x.push_back(v); break;
            case 1: { T t(v); CK(c.push_front(t) == room, "result", "push_front returned %d", !room); CK(uint64_t(t) == v, "source", "argument changed"); if (room) x.insert(x.begin(), v); break; }
            case 2: { T t(v); CK(c.push_back(t) == room, "result", "push_back returned %d", !room); if (room) x.push_back(v); break; }
            case 3: CK(c.push_front(T(v)) == room, "result", "push_front returned %d", !room); if (room) x.insert(x.begin(), v); break;
            case 4: if (room) { CK(uint64_t(c.emplace_back(v)) == v, "result", "emplace_back returned another element"); x.push_back(v); } break;
            case 5: if (room) { CK(uint64_t(c.emplace_front(v)) == v, "result", "emplace_front returned another element"); x.insert(x.begin(), v); } break;
            case 6: case 7: case 8:
            {
                T t(v);
                auto it = op == 6 ? c.emplace(at(a, p), v) : op == 7 ? c.insert(at(a, p), t) : c.insert(at(a, p), T(v));
                CK((it != c.end()) == room, "result", "insert into %s list returned %s", room ? "a not full" : "a full", room ? "end()" : "an element");
                if (room) { CK(uint64_t(*it) == v, "result", "insert returned another element"); x.insert(pos(p), v); if (R->chance(500)) its[a].push_back({it, v}); }
                break;
            }
            case 9: if (!x.empty()) forget(a, 0); CK(c.pop_front() == !x.empty(), "result", "pop_front result"); if (!x.empty()) x.erase(x.begin()); break;
            case 10: if (!x.empty()) forget(a, x.size() - 1); CK(c.pop_back() == !x.empty(), "result", "pop_back result"); if (!x.empty()) x.pop_back(); break;
            case 11: case 12:
                if (p < x.size())
                {
                    forget(a, p);
                    auto it = c.erase(at(a, p));
                    x.erase(pos(p));
                    CK(p < x.size() ? (it != c.end() && uint64_t(*it) == x[p]) : it == c.end(), "result", "erase returned a wrong iterator");
                }
                else
                {
                    CK(c.erase(c.cend()) == c.end(), "result", "erase(end) is not end");
                }
                break;
            case 13:
            {
                uint64_t w = x.empty() || R->chance(300) ? v : x[R->below(x.size())];
                for (auto q = its[a].begin(); q != its[a].end();) q = q->second == w ? its[a].erase(q) : q + 1;
                T t(w);
                uint64_t n = c.remove(t), e = uint64_t(std::count(x.begin(), x.end(), w));
                CK(n == e, "result", "remove removed %llu of %llu", (unsigned long long)n, (unsigned long long)e);
                x.erase(std::remove(x.begin(), x.end(), w), x.end());
                break;
            }
            case 14:
            {
                uint64_t md = R->range(1, 4);
                for (auto q = its[a].begin(); q != its[a].end();) q = q->second % md == 0 ? its[a].erase(q) : q + 1;
                uint64_t calls = 0;
                uint64_t n = c.remove_if([&](const T& t) { ++calls; return uint64_t(t) % md == 0; });
                CK(calls == x.size(), "result", "remove_if looked at %llu of %zu elements", (unsigned long long)calls, x.size());
                size_t before = x.size();
                x.erase(std::remove_if(x.begin(), x.end(), [&](uint64_t t) { return t % md == 0; }), x.end());
                CK(n == before - x.size(), "result", "remove_if returned %llu instead of %zu", (unsigned long long)n, before - x.size());
                break;
            }
            case 15: { its[a].clear(); c = *o[b]; Model t = m[b]; x = t; break; }
            case 16: its[a].clear(); if (a != b) { its[b].clear(); c = std::move(*o[b]); x = m[b]; m[b].clear(); } else { auto& s = c; c = std::move(s); } break;
            case 17:
                if (R->chance(250)) { its[a].clear(); c.clear(); x.clear(); }
                else if (a != b) { its[a].clear(); o[a].drop(); if (R->chance(500)) { o[a].make(static_cast<const C&>(*o[b])); x = m[b]; } else { its[b].clear(); o[a].make(std::move(*o[b])); x = m[b]; m[b].clear(); } }
                break;
            }
            verify("operation");
        }
        if (R->chance(30))
        {
            switch (R->below(4))
            {
            case 0: VH_TERMINATES(o[0]->begin() == o[1]->begin(), "misuse", "comparing iterators of two lists"); break;
            case 1: VH_TERMINATES(*o[0]->end(), "misuse", "dereferencing end()"); break;
            case 2: o[0]->clear(); m[0].clear(); VH_TERMINATES(o[0]->front(), "misuse", "front() of an empty list"); break;
            case 3: o[0]->clear(); m[0].clear(); VH_TERMINATES(o[0]->back(), "misuse", "back() of an empty list"); break;
            }
        }
        for (auto& x : m) x.clear();
        for (auto& x : o) x.drop();
        B::lifeCheck("destruction");
    }
};

template <typename T, uint64_t CAP>
struct FListTest : Base<iox::forward_list<T, CAP>, T>
{
    using C = iox::forward_list<T, CAP>;
    using B = Base<C, T>;
    using B::o; using B::m; using B::kind;
    std::vector<std::pair<typename C::iterator, uint64_t>> its[3];
    // iterator before position p
    typename C::iterator before(size_t k, size_t p)
    {
        auto it = o[k]->before_begin();
        for (size_t i = 0; i < p; ++i) ++it;
        return it;
    }
    void forget(size_t k, size_t p)
    {
        auto it = before(k, p + 1);
        for (size_t i = 0; i < its[k].size();)
            if (its[k][i].first == it) its[k].erase(its[k].begin() + std::ptrdiff_t(i));
            else ++i;
    }
    void verify(const char* op)
    {
        for (size_t k = 0; k < 3; ++k)
        {
            const C& c = *o[k];
            Model g;
            for (auto it = c.begin(); it != c.end() && g.size() <= CAP; ++it) g.push_back(uint64_t(*it));
            B::cmp(k, g, op);
            auto bb = o[k]->before_begin();
            ++bb;
            CK(bb == o[k]->begin(), "iteration", "before_begin() is not before begin()");
            if (!g.empty()) CK(uint64_t(c.front()) == g.front(), "access", "front is wrong after %s", op);
            auto e = c.cend();
            ++e;
            CK(e == c.end(), "iteration", "incrementing end() moved");
            CK(c.size() == g.size() && c.empty() == g.empty() && c.full() == (g.size() == CAP) && c.capacity() == CAP && c.max_size() == CAP, "size", "size/empty/full are wrong after %s", op);
            for (auto& x : its[k]) { CK(uint64_t(*x.first) == x.second, "iterator", "an iterator that must stay valid designates another element after %s", op); count("iterator_checks"); }
        }
        B::lifeCheck(op);
    }
    void run()
    {
        kind = "forward_list";
        for (auto& x : o) x.make();
        unsigned ops = unsigned(R->range(10, 60));
        for (unsigned i = 0; i < ops; ++i)
        {
            size_t a = R->below(3), b = R->below(3);
            auto& c = *o[a];
            auto& x = m[a];
            uint64_t op = R->below(15), v = val();
            bool room = x.size() < CAP;
            size_t p = R->below(x.size() + 1);
            tr(fmt("f%llu(%zu,%zu,%zu,%llu) ", (unsigned long long)op, a, b, p, (unsigned long long)v));
            count("operations");
            switch (op)
            {
            case 0: { T t(v); CK(c.push_front(t) == room, "result", "push_front returned %d", !room); if (room) x.insert(x.begin(), v); break; }
            case 1: CK(c.push_front(T(v)) == room, "result", "push_front returned %d", !room); if (room) x.insert(x.begin(), v); break;
            case 2: if (room) { CK(uint64_t(c.emplace_front(v)) == v, "result", "emplace_front returned another element"); x.insert(x.begin(), v); } break;
            case 3: case 4: case 5: case 6:
            {
                T t(v);
                auto it = op <= 4 ? c.emplace_after(before(a, p), v) : op == 5 ? c.insert_after(before(a, p), t) : c.insert_after(before(a, p), T(v));
                CK((it != c.end()) == room, "result", "insert_after returned %s", room ? "end()" : "an element");
                if (room) { CK(uint64_t(*it) == v, "result", "insert_after returned another element"); x.insert(x.begin() + std::ptrdiff_t(p), v); if (R->chance(500)) its[a].push_back({it, v}); }
                break;
            }
            case 7: if (!x.empty()) forget(a, 0); CK(c.pop_front() == !x.empty(), "result", "pop_front result"); if (!x.empty()) x.erase(x.begin()); break;
            case 8: case 9:
                if (p < x.size())
                {
                    forget(a, p);
                    auto it = c.erase_after(before(a, p));
                    x.erase(x.begin() + std::ptrdiff_t(p));
                    CK(p < x.size() ? (it != c.end() && uint64_t(*it) == x[p]) : it == c.end(), "result", "erase_after returned a wrong iterator");
                }
                else CK(c.erase_after(before(a, p)) == c.end(), "result", "erase_after(last) is not end");
                break;
            case 10:
            {
                uint64_t w = x.empty() || R->chance(300) ? v : x[R->below(x.size())];
                for (auto q = its[a].begin(); q != its[a].end();) q = q->second == w ? its[a].erase(q) : q + 1;
                T t(w);
                uint64_t n = c.remove(t), e = uint64_t(std::count(x.begin(), x.end(), w));
                CK(n == e, "result", "remove removed %llu of %llu", (unsigned long long)n, (unsigned long long)e);
                x.erase(std::remove(x.begin(), x.end(), w), x.end());
                break;
            }
            case 11:
            {
                uint64_t md = R->range(1, 4);
                for (auto q = its[a].begin(); q != its[a].end();) q = q->second % md == 0 ? its[a].erase(q) : q + 1;
                uint64_t n = c.remove_if([&](const T& t) { return uint64_t(t) % md == 0; });
                size_t bs = x.size();
                x.erase(std::remove_if(x.begin(), x.end(), [&](uint64_t t) { return t % md == 0; }), x.end());
                CK(n == bs - x.size(), "result", "remove_if returned %llu instead of %zu", (unsigned long long)n, bs - x.size());
                break;
            }
            case 12: { its[a].clear(); c = *o[b]; Model t = m[b]; x = t; break; }
            case 13: its[a].clear(); if (a != b) { its[b].clear(); c = std::move(*o[b]); x = m[b]; m[b].clear(); } else { auto& s = c; c = std::move(s); } break;
            case 14:
                if (R->chance(250)) { its[a].clear(); c.clear(); x.clear(); }
                else if (a != b) { its[a].clear(); o[a].drop(); if (R->chance(500)) { o[a].make(static_cast<const C&>(*o[b])); x = m[b]; } else { its[b].clear(); o[a].make(std::move(*o[b])); x = m[b]; m[b].clear(); } }
                break;
            }
            verify("operation");
        }
        if (R->chance(30))
        {
            switch (R->below(3))
            {
            case 0: VH_TERMINATES(o[0]->begin() == o[1]->begin(), "misuse", "comparing iterators of two lists"); break;
            case 1: VH_TERMINATES(*o[0]->end(), "misuse", "dereferencing end()"); break;
            case 2: o[0]->clear(); m[0].clear(); VH_TERMINATES(o[0]->front(), "misuse", "front() of an empty list"); break;
            }
        }
        for (auto& x : m) x.clear();
        for (auto& x : o) x.drop();
        B::lifeCheck("destruction");
    }
};

template <typename T, uint64_t CAP>
struct FpcTest : Base<iox::FixedPositionContainer<T, CAP>, T>
{
    using C = iox::FixedPositionContainer<T, CAP>;
    using B = Base<C, T>;
    using I = typename C::IndexType;
    using B::o; using B::m; using B::kind;
    struct Slot { uint64_t v; const T* p; };
    std::map<uint64_t, Slot> s[3];
    void sync(size_t k)
    {
        m[k].clear();
        for (auto& x : s[k]) m[k].push_back(x.second.v);
    }
    void relearn(size_t k, const Model& v, const char* op)
    {
        s[k].clear();
        size_t i = 0;
        for (auto it = o[k]->begin(); it != o[k]->end(); ++it, ++i)
        {
            CK(i < v.size() && uint64_t(*it) == v[i], "content", "%s gives wrong elements", op);
            s[k][it.to_index()] = {v[i], it.to_ptr()};
        }
        CK(i == v.size(), "content", "%s gives %zu instead of %zu elements", op, i, v.size());
    }
    void verify(const char* op)
    {
        for (size_t k = 0; k < 3; ++k)
        {
            sync(k);
            C& c = *o[k];
            Model g;
            int64_t last = -1;
            for (auto it = c.begin(); it != c.end() && g.size() <= CAP; ++it)
            {
                int64_t x = int64_t(it.to_index());
                CK(x > last && s[k].count(uint64_t(x)), "iteration", "iteration visits index %lld after %lld (%s)", (long long)x, (long long)last, op);
                last = x;
                CK(it.to_ptr() == s[k][uint64_t(x)].p && &*it == it.to_ptr(), "position", "an element moved during %s", op);
                CK(it.origins_from(c), "iterator", "origins_from is false");
                g.push_back(uint64_t(*it));
            }
            B::cmp(k, g, op);
            Model g2;
            const C& cc = c;
            for (auto it = cc.cbegin(); it != cc.cend() && g2.size() <= CAP; it++) g2.push_back(uint64_t(*it));
            CK(g2 == g, "iteration", "const iteration differs");
            CK(c.size() == g.size() && c.empty() == g.empty() && c.full() == (g.size() == CAP) && c.capacity() == CAP, "size", "size/empty/full are wrong after %s", op);
            for (uint64_t x = 0; x <= CAP; ++x)
            {
                auto it = c.iter_from_index(I(x));
                CK((it != c.end()) == (s[k].count(x) > 0), "iter-from-index", "iter_from_index(%llu) is wrong after %s", (unsigned long long)x, op);
                if (it != c.end()) CK(uint64_t(*it) == s[k][x].v && it.to_index() == x, "iter-from-index", "iter_from_index(%llu) designates another element", (unsigned long long)x);
            }
        }
        B::lifeCheck(op);
    }
    void run()
    {
        kind = "FixedPositionContainer";
        for (auto& x : o) x.make();
        unsigned ops = unsigned(R->range(10, 60));
        for (unsigned i = 0; i < ops; ++i)
        {
            size_t a = R->below(3), b = R->below(3);
            auto& c = *o[a];
            uint64_t op = R->below(14), v = val();
            bool room = s[a].size() < CAP;
            tr(fmt("p%llu(%zu,%zu,%llu) ", (unsigned long long)op, a, b, (unsigned long long)v));
            count("operations");
            if (op < 6)
            {
                T t(v);
                auto it = op < 3 ? c.insert(t) : c.emplace(v);
                CK((it != c.end()) == room, "result", "insert returned %s", room ? "end()" : "an element");
                if (room)
                {
                    CK(!s[a].count(it.to_index()) && it.to_index() < CAP, "result", "insert used an occupied slot");
                    CK(uint64_t(*it) == v, "result", "insert returned another element");
                    s[a][it.to_index()] = {v, it.to_ptr()};
                }
            }
            else if (op < 10)
            {
                if (!s[a].empty())
                {
                    auto q = s[a].begin();
                    for (uint64_t n = R->below(s[a].size()); n > 0; --n) ++q;
                    auto nx = std::next(q);
                    typename C::Iterator r = c.end();
                    if (op == 6) r = c.erase(I(q->first));
                    else if (op == 7) r = c.erase(q->second.p);
                    else if (op == 8) r = c.erase(c.iter_from_index(I(q->first)));
                    else
                    {
                        const C& cc = c;
                        auto cr = c.erase(cc.iter_from_index(I(q->first)));
                        r = c.iter_from_index(I(cr.to_index()));
                    }
                    CK(nx == s[a].end() ? r == c.end() : (r != c.end() && r.to_index() == nx->first), "result", "erase returned a wrong iterator");
                    s[a].erase(q);
                }
            }
            else if (op == 10) { sync(b); Model t = m[b]; c = *o[b]; if (a != b) relearn(a, t, "copy assignment"); }
            else if (op == 11) { if (a != b) { sync(b); Model t = m[b]; c = std::move(*o[b]); relearn(a, t, "move assignment"); s[b].clear(); } else { auto& q = c; c = std::move(q); } }
            else if (op == 12 && a != b)
            {
                sync(b);
                Model t = m[b];
                o[a].drop();
                if (R->chance(500)) o[a].make(static_cast<const C&>(*o[b]));
                else { o[a].make(std::move(*o[b])); s[b].clear(); }
                relearn(a, t, "copy/move construction");
            }
            else if (op == 13 && R->chance(250)) { c.clear(); s[a].clear(); }
            verify("operation");
        }
        if (R->chance(30))
        {
            auto& c = *o[0];
            switch (R->below(4))
            {
            case 0: VH_TERMINATES(c.erase(I(CAP)), "misuse", "erase(index out of range)"); break;
            case 1: for (uint64_t x = 0; x < CAP; ++x) if (!s[0].count(x)) { VH_TERMINATES(c.erase(I(x)), "misuse", "erase(free slot)"); break; } break;
            case 2: VH_TERMINATES(*c.end(), "misuse", "dereferencing end()"); break;
            case 3: if (!s[1].empty()) VH_TERMINATES(c.erase(o[1]->begin()), "misuse", "erase(iterator of another container)"); break;
            }
        }
        for (auto& x : m) x.clear();
        for (auto& x : o) x.drop();
        B::lifeCheck("destruction");
    }
};

template <typename T, uint64_t CAP>
void all(uint64_t which)
{
    switch (which)
    {
    case 0: VecTest<T, CAP>().run(); break;
    case 1: ListTest<T, CAP>().run(); break;
    case 2: FListTest<T, CAP>().run(); break;
    case 3: FpcTest<T, CAP>().run(); break;
    case 4: StackTest<T, CAP>().run(); break;
    }
    const char* n[] = {"runs_vector", "runs_list", "runs_forward_list", "runs_fixed_position", "runs_stack"};
    count(n[which]);
}
template <typename T>
void cap(uint64_t which)
{
    switch (R->below(6))
    {
    case 0: all<T, 1>(which); break;
    case 1: all<T, 2>(which); break;
    case 2: all<T, 3>(which); break;
    case 3: all<T, 5>(which); break;
    case 4: all<T, 8>(which); break;
    case 5: all<T, 17>(which); break;
    }
}
void uninit()
{
    const char* kind = "UninitializedArray";
    struct alignas(32) Wide { char x[33]; };
    auto a = std::make_unique<iox::UninitializedArray<Wide, 5>>();
    for (uint64_t i = 0; i < 5; ++i)
    {
        CK(reinterpret_cast<uintptr_t>(&(*a)[i]) % 32 == 0, "alignment", "element %llu is misaligned", (unsigned long long)i);
        CK(&(*a)[i] == a->begin() + i, "layout", "operator[] and begin() disagree");
        memset(&(*a)[i], int(i), sizeof(Wide));
    }
    CK(a->end() - a->begin() == 5 && a->capacity() == 5 && iox::size(*a) == 5, "size", "size is wrong");
    void* mem = ::operator new(sizeof(iox::UninitializedArray<uint64_t, 7, iox::ZeroedBuffer>));
    memset(mem, 0xEE, sizeof(iox::UninitializedArray<uint64_t, 7, iox::ZeroedBuffer>));
    auto* z = new (mem) iox::UninitializedArray<uint64_t, 7, iox::ZeroedBuffer>();
    for (auto x : *z) CK(x == 0, "zero", "ZeroedBuffer is not zero");
    ::operator delete(mem);
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random operation sequences on three objects per case; element types trivial, trivially copyable and life-time checked; capacities 1 to 17; distinct = different histories");
    iox::log::Logger::init(iox::log::LogLevel::Off);
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_val = 100;
        g_trace.clear();
        uint64_t which = r.below(5);
        switch (r.below(4))
        {
        case 0: cap<uint64_t>(which); break;
        case 1: cap<Tri>(which); break;
        default: cap<Life>(which); break;
        }
        uninit();
        distinct(std::hash<std::string>()(g_trace));
        sample(g_trace);
    });
}
