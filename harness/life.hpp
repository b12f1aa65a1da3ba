// Element with life-time accounting: detects leaks, double destruction, use of dead or moved-from objects, torn copies.
#pragma once
#include "common.hpp"

struct Life
{
    static constexpr uint64_t ALIVE = 0xA11CE0A11CE0A11Cull;
    static constexpr uint64_t DEAD = 0xDEADDEADDEADDEADull;
    static constexpr uint64_t MOVED = ~0ull - 7;
    static int64_t& live()
    {
        static int64_t n = 0;
        return n;
    }
    static uint64_t& constructed()
    {
        static uint64_t n = 0;
        return n;
    }
    uint64_t v;
    uint64_t guard;
    uint64_t w; // redundant copy: ~v
    void born()
    {
        guard = ALIVE ^ reinterpret_cast<uintptr_t>(this);
        ++live();
        ++constructed();
    }
    void check(const char* what) const
    {
        VH_CHECK(guard == (ALIVE ^ reinterpret_cast<uintptr_t>(this)), "lifetime",
                 "%s on an object that is not alive (guard %llx)", what, (unsigned long long)guard);
        VH_CHECK(w == ~v, "torn", "%s sees a torn or corrupted value %llx/%llx", what, (unsigned long long)v, (unsigned long long)w);
    }
    void set(uint64_t x)
    {
        v = x;
        w = ~x;
    }
    Life(uint64_t x = 0)
    {
        set(x);
        born();
    }
    Life(const Life& o)
    {
        o.check("copy construction");
        set(o.v);
        born();
    }
    Life(Life&& o) noexcept
    {
        o.check("move construction");
        set(o.v);
        o.set(MOVED);
        born();
    }
    Life& operator=(const Life& o)
    {
        check("copy assignment (target)");
        o.check("copy assignment (source)");
        set(o.v);
        return *this;
    }
    Life& operator=(Life&& o) noexcept
    {
        check("move assignment (target)");
        o.check("move assignment (source)");
        if (this != &o)
        {
            set(o.v);
            o.set(MOVED);
        }
        return *this;
    }
    ~Life()
    {
        check("destruction");
        guard = DEAD;
        --live();
    }
    bool operator==(const Life& o) const
    {
        check("comparison");
        o.check("comparison");
        return v == o.v;
    }
    bool operator!=(const Life& o) const { return !(*this == o); }
    bool operator<(const Life& o) const { return v < o.v; }
    operator uint64_t() const
    {
        check("read");
        return v;
    }
};
