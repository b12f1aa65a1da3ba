// Included by iceoryx_platform/atomic.hpp when IOX_VERIF_HOOKS is defined: atomics which call a monitor function
// before (phase 0) and after (phase 1) every operation.
#ifndef IOX_VERIF_ATOMIC_HPP
#define IOX_VERIF_ATOMIC_HPP
#include <atomic>

extern "C" __attribute__((weak)) void iox_verif_point(const volatile void* addr, int kind, int phase);

namespace iox
{
namespace verif
{
enum Kind : int { K_LOAD = 1, K_STORE = 2, K_RMW = 3, K_CAS = 4 };

struct PointScope
{
    const volatile void* a;
    int k;
    PointScope(const volatile void* addr, int kind) noexcept
        : a(addr)
        , k(kind)
    {
        if (&iox_verif_point != nullptr)
            iox_verif_point(a, k, 0);
    }
    ~PointScope() noexcept
    {
        if (&iox_verif_point != nullptr)
            iox_verif_point(a, k, 1);
    }
};

template <typename T>
class HookedAtomic : public std::atomic<T>
{
    using B = std::atomic<T>;

  public:
    constexpr HookedAtomic() noexcept
        : B(T())
    {
    }
    constexpr HookedAtomic(T v) noexcept
        : B(v)
    {
    }
    HookedAtomic(const HookedAtomic&) = delete;
    HookedAtomic& operator=(const HookedAtomic&) = delete;

#define IOXV_BOTH(...)                                                                                                 \
    __VA_ARGS__

#define IOXV_OPS(V)                                                                                                    \
    T operator=(T v) V noexcept { PointScope p(this, K_STORE); B::store(v); return v; }                               \
    void store(T v, std::memory_order o = std::memory_order_seq_cst) V noexcept                                        \
    { PointScope p(this, K_STORE); B::store(v, o); }                                                                   \
    T load(std::memory_order o = std::memory_order_seq_cst) const V noexcept                                           \
    { PointScope p(this, K_LOAD); return B::load(o); }                                                                 \
    operator T() const V noexcept { PointScope p(this, K_LOAD); return B::load(); }                                    \
    T exchange(T v, std::memory_order o = std::memory_order_seq_cst) V noexcept                                        \
    { PointScope p(this, K_RMW); return B::exchange(v, o); }                                                           \
    bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) V noexcept                         \
    { PointScope p(this, K_CAS); return B::compare_exchange_weak(e, d, s, f); }                                        \
    bool compare_exchange_weak(T& e, T d, std::memory_order o = std::memory_order_seq_cst) V noexcept                  \
    { PointScope p(this, K_CAS); return B::compare_exchange_weak(e, d, o); }                                           \
    bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) V noexcept                       \
    { PointScope p(this, K_CAS); return B::compare_exchange_strong(e, d, s, f); }                                      \
    bool compare_exchange_strong(T& e, T d, std::memory_order o = std::memory_order_seq_cst) V noexcept                \
    { PointScope p(this, K_CAS); return B::compare_exchange_strong(e, d, o); }                                         \
    template <typename A> T fetch_add(A v, std::memory_order o = std::memory_order_seq_cst) V noexcept                 \
    { PointScope p(this, K_RMW); return B::fetch_add(v, o); }                                                          \
    template <typename A> T fetch_sub(A v, std::memory_order o = std::memory_order_seq_cst) V noexcept                 \
    { PointScope p(this, K_RMW); return B::fetch_sub(v, o); }                                                          \
    template <typename A> T fetch_and(A v, std::memory_order o = std::memory_order_seq_cst) V noexcept                 \
    { PointScope p(this, K_RMW); return B::fetch_and(v, o); }                                                          \
    template <typename A> T fetch_or(A v, std::memory_order o = std::memory_order_seq_cst) V noexcept                  \
    { PointScope p(this, K_RMW); return B::fetch_or(v, o); }                                                           \
    template <typename A> T fetch_xor(A v, std::memory_order o = std::memory_order_seq_cst) V noexcept                 \
    { PointScope p(this, K_RMW); return B::fetch_xor(v, o); }                                                          \
    template <typename U = T> U operator++() V noexcept { PointScope p(this, K_RMW); return B::operator++(); }         \
    template <typename U = T> U operator++(int) V noexcept { PointScope p(this, K_RMW); return B::operator++(0); }     \
    template <typename U = T> U operator--() V noexcept { PointScope p(this, K_RMW); return B::operator--(); }         \
    template <typename U = T> U operator--(int) V noexcept { PointScope p(this, K_RMW); return B::operator--(0); }     \
    template <typename A> T operator+=(A v) V noexcept { PointScope p(this, K_RMW); return B::operator+=(v); }         \
    template <typename A> T operator-=(A v) V noexcept { PointScope p(this, K_RMW); return B::operator-=(v); }         \
    template <typename A> T operator&=(A v) V noexcept { PointScope p(this, K_RMW); return B::operator&=(v); }         \
    template <typename A> T operator|=(A v) V noexcept { PointScope p(this, K_RMW); return B::operator|=(v); }         \
    template <typename A> T operator^=(A v) V noexcept { PointScope p(this, K_RMW); return B::operator^=(v); }

    IOXV_OPS()
    IOXV_OPS(volatile)
#undef IOXV_OPS
#undef IOXV_BOTH
};

class HookedAtomicFlag : public std::atomic_flag
{
    using B = std::atomic_flag;

  public:
    HookedAtomicFlag() noexcept = default;
    constexpr HookedAtomicFlag(bool v) noexcept
        : B(v)
    {
    }
    HookedAtomicFlag(const HookedAtomicFlag&) = delete;
    HookedAtomicFlag& operator=(const HookedAtomicFlag&) = delete;
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        PointScope p(this, K_RMW);
        return B::test_and_set(o);
    }
    void clear(std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        PointScope p(this, K_STORE);
        B::clear(o);
    }
};
} // namespace verif
} // namespace iox
#endif
