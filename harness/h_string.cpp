// Fixed-capacity strings against std::string, and file/path/user/group names against an independent definition (C29).
#include "common.hpp"
#include "iox/file_name.hpp"
#include "iox/file_path.hpp"
#include "iox/group_name.hpp"
#include "iox/logging.hpp"
#include "iox/path.hpp"
#include "iox/std_string_support.hpp"
#include "iox/string.hpp"
#include "iox/user_name.hpp"
#include <algorithm>
#include <array>
#include <memory>

using namespace vh;
namespace
{
std::string g_trace;
void tr(const std::string& s)
{
    g_trace += s;
    if (g_trace.size() > 3000) g_trace.erase(0, 1500);
}
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; history: %s", vh::fmt(__VA_ARGS__).c_str(), g_trace.substr(g_trace.size() > 900 ? g_trace.size() - 900 : 0).c_str())
Rng* R;
int sgn(int64_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
std::string text(uint64_t maxLen)
{
    uint64_t n = R->chance(100) ? 0 : R->chance(250) ? maxLen : R->below(maxLen + 1);
    std::string s;
    const char* abc = R->chance(700) ? "ab" : "abcXYZ019 ._-/\x7f\xff\x80~";
    size_t k = strlen(abc);
    for (uint64_t i = 0; i < n; ++i) s += abc[R->below(k)];
    return s;
}
// exact-size heap copy: any read beyond the terminator is seen by ASan
struct CStr
{
    std::unique_ptr<char[]> p;
    explicit CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
    operator const char*() const { return p.get(); }
};
template <uint64_t N>
using S = iox::string<N>;
template <uint64_t N>
std::string str(const S<N>& s) { return std::string(s.c_str(), s.size()); }
template <uint64_t N>
void sane(const S<N>& s, const std::string& m, const char* op)
{
    CK(s.size() <= N, "capacity", "size() %llu exceeds the capacity %llu after %s", (unsigned long long)s.size(), (unsigned long long)N, op);
    CK(s.c_str()[s.size()] == '\0', "terminator", "no zero termination after %s", op);
    CK(str(s) == m, "content", "string<%llu> is \"%s\" instead of \"%s\" after %s", (unsigned long long)N, str(s).c_str(), m.c_str(), op);
    CK(s.empty() == m.empty() && s.capacity() == N, "size", "empty()/capacity() are wrong after %s", op);
    count("comparisons");
}
template <uint64_t A, uint64_t B>
void relations(const S<A>& a, const S<B>& b)
{
    std::string ma = str(a), mb = str(b);
    int c = sgn(ma.compare(mb));
    CK(sgn(a.compare(b)) == c && (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), "compare", "comparison of \"%s\" and \"%s\" is wrong", ma.c_str(), mb.c_str());
    // std::string and char array on either side
    CK(sgn(a.compare(mb)) == c && (a == mb) == (c == 0) && (a < mb) == (c < 0) && (a >= mb) == (c >= 0) && (mb == a) == (c == 0) && (mb != a) == (c != 0) && (mb > a) == (c < 0) && (mb >= a) == (c <= 0) && (mb < a) == (c > 0) && (mb <= a) == (c >= 0), "compare", "comparison of \"%s\" with std::string \"%s\" is wrong", ma.c_str(), mb.c_str());
    char arr[B + 1];
    memset(arr, 'z', sizeof arr);
    memcpy(arr, mb.c_str(), mb.size() + 1);
    CK(sgn(a.compare(arr)) == c && (a == arr) == (c == 0) && (a > arr) == (c > 0) && (a <= arr) == (c <= 0) && (arr == a) == (c == 0) && (arr < a) == (c > 0), "compare", "comparison of \"%s\" with the array \"%s\" is wrong", ma.c_str(), mb.c_str());
    char ch = mb.empty() ? 'a' : mb[0];
    int cc = sgn(ma.compare(std::string(1, ch)));
    CK(sgn(a.compare(ch)) == cc && (a == ch) == (cc == 0) && (a < ch) == (cc < 0) && (a >= ch) == (cc >= 0) && (ch == a) == (cc == 0) && (ch < a) == (cc > 0), "compare", "comparison of \"%s\" with the character %d is wrong", ma.c_str(), ch);
    count("relations");
}
template <uint64_t A, uint64_t B>
void finds(const S<A>& a, const S<B>& b)
{
    std::string ma = str(a), mb = str(b);
    uint64_t pos = R->below(A + 3);
    if (R->chance(30)) pos = ~0ull - R->below(3);
    auto eq = [&](const iox::optional<uint64_t>& o, size_t w) { return o.has_value() ? o.value() == w : w == std::string::npos; };
    auto npos = std::string::npos;
    char arr[B + 1];
    memset(arr, 'z', sizeof arr);
    memcpy(arr, mb.c_str(), mb.size() + 1);
    CK(eq(a.find(b), ma.find(mb)) && eq(a.find(b, pos), ma.find(mb, pos)) && eq(a.find(mb, pos), ma.find(mb, pos)) && eq(a.find(arr, pos), ma.find(mb, pos)), "find", "find(\"%s\", %llu) in \"%s\" is wrong", mb.c_str(), (unsigned long long)pos, ma.c_str());
    size_t w = ma.find_first_of(mb, pos);
    CK(eq(a.find_first_of(b, pos), w) && eq(a.find_first_of(mb, pos), w) && eq(a.find_first_of(arr, pos), w) && eq(a.find_first_of(b), ma.find_first_of(mb)), "find", "find_first_of(\"%s\", %llu) in \"%s\" is wrong", mb.c_str(), (unsigned long long)pos, ma.c_str());
    w = ma.find_last_of(mb, pos);
    CK(eq(a.find_last_of(b, pos), w) && eq(a.find_last_of(mb, pos), w) && eq(a.find_last_of(arr, pos), w) && eq(a.find_last_of(b), ma.find_last_of(mb)), "find", "find_last_of(\"%s\", %llu) in \"%s\" is wrong", mb.c_str(), (unsigned long long)pos, ma.c_str());
    (void)npos;
    uint64_t cnt = R->chance(100) ? ~0ull - R->below(2) : R->below(A + 3);
    auto sub = a.substr(pos, cnt);
    CK(sub.has_value() == (pos <= ma.size()), "substr", "substr(%llu) of \"%s\" %s", (unsigned long long)pos, ma.c_str(), sub.has_value() ? "succeeded" : "failed");
    if (sub.has_value()) sane(*sub, ma.substr(pos, cnt), "substr");
    auto sub2 = a.substr(pos);
    CK(sub2.has_value() == (pos <= ma.size()), "substr", "substr(%llu) of \"%s\" is wrong", (unsigned long long)pos, ma.c_str());
    if (sub2.has_value()) sane(*sub2, ma.substr(pos), "substr");
    count("searches");
}
template <uint64_t A, uint64_t B> // B <= A
void runString()
{
    std::unique_ptr<S<A>> hp(new S<A>), hq(new S<A>);
    std::unique_ptr<S<B>> hb(new S<B>);
    S<A>*a = hp.get(), *q = hq.get();
    S<B>* b = hb.get();
    std::string ma, mq, mb;
    size_t n = R->range(5, 40);
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t op = R->below(22);
        std::string t = text(A + 3), tb = text(B);
        tr(fmt("s%llu<%llu,%llu>(%s|%s) ", (unsigned long long)op, (unsigned long long)A, (unsigned long long)B, t.c_str(), tb.c_str()));
        count("operations");
        CStr ct(t);
        char arrB[B + 1];
        memset(arrB, 'q', sizeof arrB);
        memcpy(arrB, tb.c_str(), tb.size() + 1);
        switch (op)
        {
        case 0: hp.reset(new S<A>(iox::TruncateToCapacity, ct)); a = hp.get(); ma = t.substr(0, A); break;
        case 1:
        {
            uint64_t c = R->below(t.size() + 1);
            hp.reset(new S<A>(iox::TruncateToCapacity, ct, c));
            a = hp.get();
            ma = t.substr(0, std::min<uint64_t>(c, A));
            break;
        }
        case 2: hp.reset(new S<A>(iox::TruncateToCapacity, nullptr)); a = hp.get(); ma.clear(); break;
        case 3: *b = S<B>(iox::TruncateToCapacity, tb.c_str()); mb = tb; break;
        case 4: hp.reset(new S<A>(*b)); a = hp.get(); ma = mb; break;
        case 5:
        {
            hp.reset(new S<A>(std::move(*b)));
            a = hp.get();
            ma = mb;
            if (std::is_same<S<A>, S<B>>::value || true) mb.clear();
            break;
        }
        case 6: *a = *b; ma = mb; break;
        case 7: *a = std::move(*b); ma = mb; mb.clear(); break;
        case 8: *a = arrB; ma = tb; break;
        case 9: a->assign(*b); ma = mb; break;
        case 10: a->assign(arrB); ma = tb; break;
        case 11:
        {
            bool r = a->unsafe_assign(ct);
            CK(r == (t.size() <= A), "unsafe_assign", "unsafe_assign of %zu characters to string<%llu> returned %d", t.size(), (unsigned long long)A, r);
            if (r) ma = t;
            CK(!a->unsafe_assign(nullptr), "unsafe_assign", "unsafe_assign(nullptr) succeeded");
            break;
        }
        case 12: a->append(iox::TruncateToCapacity, t); ma = (ma + t).substr(0, A); break;
        case 13:
        {
            bool r = R->chance(500) ? a->unsafe_append(t) : a->unsafe_append(*b);
            (void)r;
            // which operand was used is seen from the result below: redo deterministically
            break;
        }
        case 14: a->append(iox::TruncateToCapacity, *b); ma = (ma + mb).substr(0, A); break;
        case 15: a->append(iox::TruncateToCapacity, arrB); ma = (ma + tb).substr(0, A); break;
        case 16: { char c = t.empty() ? 'x' : t[0]; a->append(iox::TruncateToCapacity, c); ma = (ma + c).substr(0, A); break; }
        case 17:
        {
            uint64_t pos = R->below(ma.size() + 3), c = R->below(tb.size() + 3);
            if (R->chance(30)) c = ~0ull - R->below(3);
            if (R->chance(30)) pos = ~0ull - R->below(3);
            bool want = pos <= ma.size() && c <= mb.size() && ma.size() + c <= A;
            bool r = a->insert(pos, *b, c);
            CK(r == want, "insert", "insert(%llu, \"%s\", %llu) into \"%s\" (capacity %llu) returned %d", (unsigned long long)pos, mb.c_str(), (unsigned long long)c, ma.c_str(), (unsigned long long)A, r);
            if (r) ma.insert(pos, mb.substr(0, c));
            break;
        }
        case 18:
        {
            uint64_t pos = R->below(ma.size() + 3), c = R->below(tb.size() + 3);
            bool want = pos <= ma.size() && c <= tb.size() && ma.size() + c <= A;
            bool r = a->insert(pos, arrB, c);
            CK(r == want, "insert", "insert(%llu, \"%s\", %llu) into \"%s\" (capacity %llu) returned %d", (unsigned long long)pos, tb.c_str(), (unsigned long long)c, ma.c_str(), (unsigned long long)A, r);
            if (r) ma.insert(pos, tb.substr(0, c));
            break;
        }
        case 19:
        {
            if (R->chance(300)) { a->clear(); ma.clear(); break; }
            if (ma.empty()) break;
            uint64_t p = R->below(ma.size());
            CK(a->at(p) == ma[p] && (*a)[p] == ma[p] && a->unchecked_at(p) == ma[p], "at", "at(%llu) is wrong", (unsigned long long)p);
            (*a)[p] = 'k';
            ma[p] = 'k';
            if (R->chance(15)) VH_TERMINATES(a->at(ma.size()), "misuse", "string::at beyond the end");
            break;
        }
        case 20:
        {
            a->unsafe_raw_access([&](char* d, const iox::BufferInfo info) -> uint64_t {
                CK(info.used_size == ma.size() && info.total_size == A + 1, "raw", "raw access got wrong sizes %llu/%llu", (unsigned long long)info.used_size, (unsigned long long)info.total_size);
                CK(memcmp(d, ma.c_str(), ma.size()) == 0, "raw", "raw access got other content");
                std::string u = t.substr(0, A);
                memcpy(d, u.c_str(), u.size() + 1);
                return u.size();
            });
            ma = t.substr(0, A);
            break;
        }
        case 21: *q = *a; mq = ma; if (R->chance(200)) { S<A>& self = *a; *a = self; } if (R->chance(200)) { *q = std::move(*a); ma.clear(); } break;
        }
        if (op == 13)
        {
            // unsafe_append: all or nothing, by kind of argument
            *a = S<A>(iox::TruncateToCapacity, ma.c_str());
            std::string add;
            bool r;
            switch (R->below(4))
            {
            case 0: add = t; r = a->unsafe_append(t); break;
            case 1: add = mb; r = a->unsafe_append(*b); break;
            case 2: add = tb; r = a->unsafe_append(arrB); break;
            default: add = "x"; r = a->unsafe_append('x'); break;
            }
            bool want = ma.size() + add.size() <= A;
            CK(r == want, "unsafe_append", "unsafe_append of \"%s\" to \"%s\" (capacity %llu) returned %d", add.c_str(), ma.c_str(), (unsigned long long)A, r);
            if (r) ma += add;
        }
        sane(*a, ma, fmt("operation %llu", (unsigned long long)op).c_str());
        sane(*b, mb, fmt("operation %llu (other)", (unsigned long long)op).c_str());
        sane(*q, mq, fmt("operation %llu (third)", (unsigned long long)op).c_str());
        if (R->chance(300)) { relations(*a, *b); relations(*b, *a); relations(*a, *q); }
        if (R->chance(300)) { finds(*a, *b); finds(*b, *a); }
        if (R->chance(150))
        {
            sane(iox::concatenate(*a, *b), ma + mb, "concatenate");
            sane(iox::concatenate(*a, arrB, 'c', *b), ma + tb + "c" + mb, "concatenate");
            sane(*a + *b, ma + mb, "operator+");
            sane(*b + arrB, mb + tb, "operator+");
        }
    }
}

// ------------------------------------------------------------------------------------------------- names
bool fileChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == ':' || c == '_'; }
bool userChar(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; }
bool allOf(const std::string& s, bool (*f)(char), bool slash = false)
{
    for (char c : s) if (!f(c) && !(slash && c == '/')) return false;
    return true;
}
enum class V { OK, CHAR, CONTENT, UNJUDGED };
V judgeUser(const std::string& s)
{
    if (!allOf(s, userChar)) return V::CHAR;
    if (s.empty() || s[0] == '-' || (s[0] >= '0' && s[0] <= '9')) return V::CONTENT;
    return V::OK;
}
V judgeFile(const std::string& s)
{
    if (!allOf(s, fileChar)) return V::CHAR;
    if (s.empty() || s == "." || s == "..") return V::CONTENT;
    return s.back() == '.' ? V::UNJUDGED : V::OK;
}
V judgePathToFile(const std::string& s)
{
    if (!allOf(s, fileChar, true)) return V::CHAR;
    std::vector<std::string> e(1);
    for (char c : s) if (c == '/') e.emplace_back(); else e.back() += c;
    for (size_t i = 0; i < e.size(); ++i)
    {
        bool last = i + 1 == e.size();
        bool rel = e[i] == "." || e[i] == "..";
        if (last && (e[i].empty() || rel || e[i].back() == '.')) return V::CONTENT;
        if (!last && !e[i].empty() && !rel && e[i].back() == '.') return V::CONTENT;
    }
    return V::OK;
}
V judgePath(const std::string& s) { return allOf(s, fileChar, true) ? V::OK : V::CHAR; }

std::string nameText(uint64_t maxLen)
{
    uint64_t n = R->chance(80) ? 0 : R->chance(60) ? maxLen - R->below(3) : R->below(12);
    if (n > maxLen) n = maxLen;
    const char* sets[] = {"ab", "ab01", "a./", "a.-", "ab/", "aZ9._-:", "a1-", "aA@ /.\n\\", ".", "/.."};
    const char* abc = sets[R->below(10)];
    size_t k = strlen(abc);
    std::string s;
    for (uint64_t i = 0; i < n; ++i) s += abc[R->below(k)];
    return s;
}
bool matches(const iox::SemanticStringError& e, V v)
{
    return v == V::CHAR ? e == iox::SemanticStringError::ContainsInvalidCharacters : e == iox::SemanticStringError::ContainsInvalidContent;
}
template <typename T>
void runName(const char* kind, V (*judge)(const std::string&))
{
    constexpr uint64_t CAP = T::capacity();
    iox::optional<T> cur;
    std::string m;
    size_t n = R->range(5, 30);
    for (size_t i = 0; i < n; ++i)
    {
        std::string t = nameText(CAP);
        uint64_t op = R->below(6);
        tr(fmt("n%llu(%s) ", (unsigned long long)op, t.substr(0, 40).c_str()));
        count("name_operations");
        if (!cur.has_value() || op == 0)
        {
            iox::string<CAP> s(iox::TruncateToCapacity, t.c_str());
            auto r = T::create(s);
            V v = judge(t);
            if (v != V::UNJUDGED)
            {
                CK(r.has_value() == (v == V::OK), "create", "%s \"%s\" was %s", kind, t.c_str(), r.has_value() ? "accepted" : "rejected");
                if (!r.has_value()) { CK(matches(r.error(), v), "create", "%s \"%s\" was rejected for the wrong reason", kind, t.c_str()); count("names_rejected"); }
            }
            if (r.has_value()) { cur = r.value(); m = t; count("names_accepted"); }
            // too long for the type
            if (R->chance(50))
            {
                iox::string<CAP + 10> l(iox::TruncateToCapacity, (t + std::string(CAP + 10, 'a')).c_str());
                auto r2 = T::create(l);
                CK(r2.has_error() && r2.error() == iox::SemanticStringError::ExceedsMaximumLength, "create", "%s that is too long was accepted", kind);
            }
            if (t.size() < 16)
            {
                char arr[16];
                memset(arr, 'x', sizeof arr);
                memcpy(arr, t.c_str(), t.size() + 1);
                auto r3 = T::create(arr);
                if (v != V::UNJUDGED) CK(r3.has_value() == (v == V::OK) && (r3.has_error() || str(r3->as_string()) == t), "create", "%s \"%s\" from an array was %s", kind, t.c_str(), r3.has_value() ? "accepted" : "rejected");
            }
        }
        else
        {
            uint64_t pos = R->chance(300) ? m.size() : R->below(m.size() + 2), c = R->chance(500) ? t.size() : R->below(t.size() + 2);
            bool append = op == 1;
            if (append) { pos = m.size(); c = t.size(); }
            iox::string<CAP> s(iox::TruncateToCapacity, t.c_str());
            auto r = append ? cur->append(s) : cur->insert(pos, s, c);
            bool fits = pos <= m.size() && c <= t.size() && m.size() + c <= CAP;
            std::string w = m;
            if (fits) w.insert(pos, t.substr(0, c));
            V v = judge(w);
            if (!fits) CK(r.has_error() && r.error() == iox::SemanticStringError::ExceedsMaximumLength, "modify", "%s \"%s\": insert(%llu, \"%s\", %llu) beyond the limits succeeded", kind, m.c_str(), (unsigned long long)pos, t.c_str(), (unsigned long long)c);
            else if (v != V::UNJUDGED)
            {
                // Known finding: the content rule is applied to the inserted text instead of the resulting value. Only exactly that deviation is set aside.
                V t0 = judge(t);
                bool deviates = (v == V::OK && r.has_error() && matches(r.error(), V::CONTENT) && t0 != V::OK) || (v == V::CONTENT && r.has_value() && t0 != V::CONTENT);
                if (deviates)
                {
                    count("known_insert_deviation");
                    if (r.has_value()) finding("insert-makes-invalid", fmt("%s \"%s\": insert(%llu, \"%s\", %llu) was accepted although the result \"%s\" is not a valid %s", kind, m.c_str(), (unsigned long long)pos, t.c_str(), (unsigned long long)c, w.c_str(), kind));
                    else finding("insert-refuses-valid", fmt("%s \"%s\": insert(%llu, \"%s\", %llu) was rejected although the result \"%s\" is a valid %s", kind, m.c_str(), (unsigned long long)pos, t.c_str(), (unsigned long long)c, w.c_str(), kind));
                    if (r.has_value()) { cur.reset(); continue; }
                }
                else
                {
                    CK(r.has_value() == (v == V::OK), "modify", "%s \"%s\": insert(%llu, \"%s\", %llu) was %s although the result \"%s\" is %s", kind, m.c_str(), (unsigned long long)pos, t.c_str(), (unsigned long long)c, r.has_value() ? "accepted" : "rejected", w.c_str(), v == V::OK ? "valid" : "not valid");
                    if (r.has_error()) CK(matches(r.error(), v), "modify", "%s: insert was rejected for the wrong reason", kind);
                }
            }
            if (r.has_value()) { m = w; count("names_modified"); }
        }
        if (cur.has_value())
        {
            CK(str(cur->as_string()) == m && cur->size() == m.size() && *cur == *cur && !(*cur != *cur) && *cur == m, "content", "%s is \"%s\" instead of \"%s\"", kind, cur->as_string().c_str(), m.c_str());
            V v = judge(m);
            CK(v == V::OK || v == V::UNJUDGED, "invariant", "%s holds the invalid value \"%s\"", kind, m.c_str());
            T copy(*cur);
            std::string o = nameText(20);
            int cmp = sgn(m.compare(o));
            CK(copy == *cur && (*cur < o) == (cmp < 0) && (*cur <= o) == (cmp <= 0) && (*cur > o) == (cmp > 0) && (*cur >= o) == (cmp >= 0) && (*cur == o) == (cmp == 0) && (*cur != o) == (cmp != 0), "compare", "comparison of %s \"%s\" with \"%s\" is wrong", kind, m.c_str(), o.c_str());
            count("comparisons");
        }
    }
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random operation sequences on strings of ten capacity pairs and on five kinds of names, texts drawn from small alphabets around the capacity; distinct = different histories");
    iox::log::Logger::get();
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_trace.clear();
        switch (r.below(14))
        {
        case 0: runString<1, 1>(); break;
        case 1: runString<2, 1>(); break;
        case 2: runString<5, 3>(); break;
        case 3: runString<5, 5>(); break;
        case 4: runString<8, 7>(); break;
        case 5: runString<16, 15>(); break;
        case 6: runString<31, 8>(); break;
        case 7: runString<64, 63>(); break;
        case 8: runString<100, 20>(); break;
        case 9: runName<iox::UserName>("user name", judgeUser); break;
        case 10: runName<iox::GroupName>("group name", judgeUser); break;
        case 11: runName<iox::FileName>("file name", judgeFile); break;
        case 12: runName<iox::FilePath>("file path", judgePathToFile); break;
        default: runName<iox::Path>("path", judgePath); break;
        }
        if (r.chance(3)) sample(g_trace);
        uint64_t h = 1;
        for (char c : g_trace) h = h * 31 + uint8_t(c);
        distinct(h);
    });
}
