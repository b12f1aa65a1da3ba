// Controlled scheduler: real threads, one runs at a time, a seeded strategy decides at each schedule point.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs
{
struct Options
{
    uint64_t seed{1};
    uint32_t stepLimit{60000};  // after this many steps: switch to fair round robin
    uint32_t graceSteps{60000}; // if still not finished after that many fair steps: stuck
};
struct Result
{
    uint64_t hash{0};     // hash of the sequence of scheduling decisions
    uint64_t steps{0};
    uint64_t switches{0};
    bool fairMode{false}; // step limit reached
};

// Called (in scheduler context) when nobody can run any more / no progress; must not return.
using StuckHandler = std::function<void(const std::string& what)>;
void setStuckHandler(StuckHandler h);

// Runs all bodies to completion under the strategy derived from the seed.
Result run(const std::vector<std::function<void()>>& bodies, const Options& o);

bool controlled();  // is the calling thread scheduled by us?
int self();         // id of the calling controlled thread or -1
void point();       // explicit schedule point
void yieldPoint();  // give others a chance
uint64_t now();     // logical time (number of schedule points so far); strictly monotonic per call
// block until pred() is true (evaluated while nobody else runs)
void waitUntil(const std::function<bool()>& pred, const char* what);
// label shown in the stuck report
void label(const char* l);
// the calling controlled thread becomes a daemon: the run ends without it being runnable
void setPerturb(uint32_t ratePerMille, uint64_t seed); // free running mode: random yields/short sleeps

// probability (per mille) that a timed semaphore wait times out when scheduled without token
// timed semaphore waits of uncontrolled threads end this many times earlier (makes periodic tasks run faster);
// 0: they do not end by themselves, periodic tasks run only when triggered
void setTimeScale(uint32_t s);
void realTime(bool v); // the calling thread is not subject to a time scale of 0
// call f once at the n-th following atomic operation (before or after it) of the calling uncontrolled thread; 0: cancel
void inject(uint32_t n, std::function<void()> f);
bool injectPending();
void setTimeoutRate(uint32_t perMille);
uint64_t hookCalls();
} // namespace vs
