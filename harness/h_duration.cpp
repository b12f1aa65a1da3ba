// Durations against 128-bit arithmetic, deadline timers against the clock (C30).
#include "common.hpp"
#include "iox/deadline_timer.hpp"
#include "iox/duration.hpp"
#include "iox/logging.hpp"
#include <cmath>
#include <limits>
#include <sstream>

using namespace vh;
using iox::units::Duration;
namespace
{
using U = unsigned __int128;
const U NS = 1000000000u;
const U MAXD = (U(~0ull) + 1) * NS - 1;
Rng* R;
std::string show(U x) { return fmt("%llu.%09llus", (unsigned long long)(x / NS), (unsigned long long)(x % NS)); }
U sat(U x) { return x > MAXD ? MAXD : x; }
U val(const Duration& d)
{
    // the value of a duration seen through the public API alone: seconds, and what is left of it
    U s = d.toSeconds();
    Duration rest = d - Duration::fromSeconds(d.toSeconds());
    return s * NS + rest.toNanoseconds();
}
#define CK(cond, ...) VH_CHECK(cond, "duration", __VA_ARGS__)
void same(const Duration& d, U want, const char* what)
{
    U g = val(d);
    CK(g == want, "%s is %s instead of %s", what, show(g).c_str(), show(want).c_str());
    count("results");
}
uint64_t u64()
{
    switch (R->below(9))
    {
    case 0: return R->below(5);
    case 1: return ~0ull - R->below(5);
    case 2: return (1ull << R->below(64)) - R->below(3);
    case 3: return (1ull << R->below(64)) + R->below(3);
    case 4: return R->next() >> R->below(64);
    case 5: return 1000000000ull * R->below(30) + R->below(3) - R->below(2);
    case 6: { uint64_t dv[] = {1000, 1000000, 1000000000, 60, 3600, 86400, 24}; return ~0ull / dv[R->below(7)] + R->below(3) - 1; }
    case 7: return (uint64_t(1) << 63) - R->below(4);
    default: return R->next();
    }
}
Duration make(U& v)
{
    uint64_t s = u64(), n = R->chance(200) ? 999999999 - R->below(3) : R->chance(200) ? R->below(3) : R->below(1000000000);
    if (R->chance(300)) s = R->below(20);
    v = U(s) * NS + n;
    Duration d = Duration::fromSeconds(s) + Duration::fromNanoseconds(n);
    same(d, v, "fromSeconds + fromNanoseconds");
    return d;
}
template <typename T>
void creation()
{
    uint64_t x = u64();
    T t = static_cast<T>(x);
    U p = t < 0 ? U(0) : U(uint64_t(t));
    same(Duration::fromNanoseconds(t), p, "fromNanoseconds");
    same(Duration::fromMicroseconds(t), p * 1000, "fromMicroseconds");
    same(Duration::fromMilliseconds(t), p * 1000000, "fromMilliseconds");
    same(Duration::fromSeconds(t), sat(p * NS), "fromSeconds");
    same(Duration::fromMinutes(t), p * 60 > U(~0ull) ? MAXD : p * 60 * NS, "fromMinutes");
    same(Duration::fromHours(t), p * 3600 > U(~0ull) ? MAXD : p * 3600 * NS, "fromHours");
    same(Duration::fromDays(t), p * 86400 > U(~0ull) ? MAXD : p * 86400 * NS, "fromDays");
    count("creations");
}
template <typename T>
void scaling(const Duration& d, U v)
{
    T t = static_cast<T>(u64());
    if (R->chance(400)) t = static_cast<T>(R->below(1000));
    U w = 0;
    if (t > 0 && v)
    {
        U m = U(uint64_t(t));
        // v * m with overflow detection: v < 2^94
        U hi = (v >> 64) * m, lo = (v & ~0ull) * m;
        bool ovf = (hi >> 64) != 0;
        U r = 0;
        if (!ovf) { r = (hi << 64) + lo; if (r < lo) ovf = true; }
        w = ovf ? MAXD : sat(r);
    }
    same(d * t, w, "duration * integer");
    same(t * d, w, "integer * duration");
    Duration e = d;
    e *= t;
    same(e, w, "duration *= integer");
    count("scalings");
}
template <typename T>
void fscaling(const Duration& d, U v)
{
    T f;
    switch (R->below(12))
    {
    case 0: f = std::numeric_limits<T>::quiet_NaN(); break;
    case 1: f = std::numeric_limits<T>::infinity(); break;
    case 2: f = -std::numeric_limits<T>::infinity(); break;
    case 3: f = std::numeric_limits<T>::max(); break;
    case 4: f = std::numeric_limits<T>::min(); break;
    case 5: f = T(-double(R->below(1000)) / 7); break;
    case 6: f = T(0); break;
    case 7: f = T(R->below(100)); break;
    case 8: f = T(1) / T(1 + R->below(1000)); break;
    case 9: f = T(std::ldexp(1.0 + double(R->below(1000)) / 1000, int(R->below(200)) - 100)); break;
    case 10: f = std::numeric_limits<T>::denorm_min(); break;
    default: f = T(double(R->next() % 1000000) / 1000.0); break;
    }
    U g = val(d * f);
    CK(val(f * d) == g, "float * duration differs from duration * float");
    count("float_scalings");
    if (v == 0) { CK(g == 0, "0 * %g is %s", double(f), show(g).c_str()); return; }
    if (std::isnan(f) || (std::isinf(f) && f > 0)) { CK(g == MAXD, "%s * %g is %s instead of the maximum", show(v).c_str(), double(f), show(g).c_str()); return; }
    if (f <= 0) { CK(g == 0, "%s * %g is %s instead of 0", show(v).c_str(), double(f), show(g).c_str()); return; }
    long double ref = (long double)(v) * (long double)(f);
    long double tol = (sizeof(T) == 4 ? 0x1p-21L : 0x1p-49L) * ref + 3.0L;
    long double lim = (long double)MAXD;
    if (ref - tol > lim) { CK(g == MAXD, "%s * %g is %s instead of the maximum", show(v).c_str(), double(f), show(g).c_str()); return; }
    if (ref + tol > lim) { CK((long double)g >= ref - tol, "%s * %g is %s", show(v).c_str(), double(f), show(g).c_str()); return; }
    long double diff = (long double)g - ref;
    CK(diff <= tol && diff >= -tol, "%s * %.20g is %s, off by %Lg ns", show(v).c_str(), double(f), show(g).c_str(), diff);
}
void conversions(const Duration& d, U v)
{
    auto cl = [](U x) { return x > U(~0ull) ? ~0ull : uint64_t(x); };
    CK(d.toNanoseconds() == cl(v), "toNanoseconds of %s is %llu", show(v).c_str(), (unsigned long long)d.toNanoseconds());
    CK(d.toMicroseconds() == cl(v / 1000), "toMicroseconds of %s is %llu", show(v).c_str(), (unsigned long long)d.toMicroseconds());
    CK(d.toMilliseconds() == cl(v / 1000000), "toMilliseconds of %s is %llu", show(v).c_str(), (unsigned long long)d.toMilliseconds());
    CK(d.toSeconds() == uint64_t(v / NS), "toSeconds of %s is %llu", show(v).c_str(), (unsigned long long)d.toSeconds());
    CK(d.toMinutes() == uint64_t(v / NS / 60), "toMinutes of %s is %llu", show(v).c_str(), (unsigned long long)d.toMinutes());
    CK(d.toHours() == uint64_t(v / NS / 3600), "toHours of %s is %llu", show(v).c_str(), (unsigned long long)d.toHours());
    CK(d.toDays() == uint64_t(v / NS / 86400), "toDays of %s is %llu", show(v).c_str(), (unsigned long long)d.toDays());
    const uint64_t TMAX = uint64_t(std::numeric_limits<time_t>::max());
    struct timespec ts = d.timespec();
    struct timeval tv = d.timeval();
    uint64_t s = uint64_t(v / NS), n = uint64_t(v % NS);
    if (s > TMAX)
    {
        CK(uint64_t(ts.tv_sec) == TMAX && ts.tv_nsec == 999999999, "timespec of %s does not saturate", show(v).c_str());
        CK(uint64_t(tv.tv_sec) == TMAX && tv.tv_usec == 999999, "timeval of %s does not saturate", show(v).c_str());
    }
    else
    {
        CK(uint64_t(ts.tv_sec) == s && uint64_t(ts.tv_nsec) == n, "timespec of %s is %lld.%09ld", show(v).c_str(), (long long)ts.tv_sec, ts.tv_nsec);
        CK(uint64_t(tv.tv_sec) == s && uint64_t(tv.tv_usec) == n / 1000, "timeval of %s is %lld.%06ld", show(v).c_str(), (long long)tv.tv_sec, tv.tv_usec);
        same(Duration(ts), v, "Duration(timespec)");
        same(Duration(tv), v / 1000 * 1000, "Duration(timeval)");
        struct itimerspec it{};
        it.it_interval = ts;
        it.it_value.tv_sec = 77;
        same(Duration(it), v, "Duration(itimerspec)");
    }
    for (int k = 0; k < 2; ++k)
    {
        clockid_t c = k ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        struct timespec a, b;
        clock_gettime(c, &a);
        struct timespec t = d.timespec(k ? iox::units::TimeSpecReference::Epoch : iox::units::TimeSpecReference::Monotonic);
        clock_gettime(c, &b);
        U lo = U(a.tv_sec) * NS + U(a.tv_nsec) + v, hi = U(b.tv_sec) * NS + U(b.tv_nsec) + v, g = U(t.tv_sec) * NS + U(t.tv_nsec), mx = U(TMAX) * NS + 999999999;
        if (lo > mx) lo = mx;
        if (hi > mx) hi = mx;
        CK(g >= lo && g <= hi, "timespec relative to clock %d of %s is %s, expected %s", k, show(v).c_str(), show(g).c_str(), show(lo).c_str());
    }
    std::ostringstream o;
    o << d;
    CK(o.str() == fmt("%llus %lluns", (unsigned long long)s, (unsigned long long)n), "printed as %s", o.str().c_str());
    count("conversions");
}
U mono()
{
    struct timespec a;
    clock_gettime(CLOCK_MONOTONIC, &a);
    return U(a.tv_sec) * NS + U(a.tv_nsec);
}
void timer()
{
    U w = R->chance(200) ? 0 : R->below(R->chance(100) ? 3000000 : 200000);
    U t0 = mono();
    iox::deadline_timer t(Duration::fromNanoseconds(uint64_t(w)));
    U t1 = mono();
    for (int round = 0; round < 2; ++round)
    {
        for (;;)
        {
            U b = mono();
            U rem = val(t.remainingTime());
            bool ex = t.hasExpired();
            U a = mono();
            U lo = t0 + w > a ? t0 + w - a : 0, hi = t1 + w > b ? t1 + w - b : 0;
            CK(rem <= hi && rem + 0 >= lo, "remainingTime is %s, expected %s to %s", show(rem).c_str(), show(lo).c_str(), show(hi).c_str());
            CK(!ex || a >= t0 + w, "a timer of %s expired after %s", show(w).c_str(), show(a - t0).c_str());
            CK(ex || b < t1 + w, "a timer of %s has not expired after %s", show(w).c_str(), show(b - t1).c_str());
            count("timer_checks");
            if (ex) break;
            if (R->chance(300)) usleep(1);
        }
        t0 = mono();
        if (R->chance(500)) t.reset();
        else
        {
            w = R->below(100000);
            t.reset(Duration::fromNanoseconds(uint64_t(w)));
        }
        t1 = mono();
    }
}
} // namespace
int main(int argc, char** argv)
{
    init(argc, argv, "random durations built around the borders of the numeric types, all operations compared with exact 128-bit arithmetic; distinct = different operands");
    iox::log::Logger::get();
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    return runCases([&](uint64_t seed, uint64_t i) {
        Rng r(seed);
        R = &r;
        creation<uint8_t>(); creation<int8_t>(); creation<uint16_t>(); creation<int16_t>(); creation<uint32_t>(); creation<int32_t>(); creation<uint64_t>(); creation<int64_t>();
        creation<unsigned long long>(); creation<long long>();
        U a, b;
        Duration x = make(a), y = make(b);
        if (r.chance(100)) { y = x; b = a; }
        if (r.chance(50)) { x = Duration::max(); a = MAXD; }
        if (r.chance(50)) { y = Duration::zero(); b = 0; }
        distinct(mix(mix(uint64_t(a), uint64_t(a >> 64)), mix(uint64_t(b), uint64_t(b >> 64))));
        if (i < 3) sample(show(a) + " and " + show(b));
        same(x, a, "copy");
        CK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of %s and %s is wrong", show(a).c_str(), show(b).c_str());
        same(x + y, sat(a + b), "sum");
        same(x - y, a > b ? a - b : 0, "difference");
        Duration z = x;
        z += y;
        same(z, sat(a + b), "+=");
        z = x;
        z -= y;
        same(z, a > b ? a - b : 0, "-=");
        scaling<uint8_t>(x, a); scaling<int8_t>(x, a); scaling<uint16_t>(x, a); scaling<int32_t>(x, a); scaling<uint32_t>(x, a); scaling<int64_t>(x, a); scaling<uint64_t>(x, a); scaling<uint64_t>(y, b);
        for (int k = 0; k < 4; ++k) { fscaling<float>(x, a); fscaling<double>(x, a); fscaling<double>(y, b); }
        conversions(x, a);
        conversions(y, b);
        if (i % 64 == 0) timer();
    });
}
