// force-included into the sources under test: random engines draw from the harness, so that the random election
// timeouts are decided by the explorer and carry no hidden state
#pragma once
#include <random>
#include <cstdint>
extern "C" uint32_t rt_engine_next();
namespace std
{
struct verif_engine
{
    typedef uint_fast32_t result_type;
    verif_engine() {}
    template <class S>
    explicit verif_engine(S const&) {}
    template <class S>
    void seed(S const&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return rt_engine_next(); }
};
} // namespace std
#define default_random_engine verif_engine
#define mt19937 verif_engine
#define mt19937_64 verif_engine
#define minstd_rand verif_engine
#define minstd_rand0 verif_engine
