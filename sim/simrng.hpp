// Forced into every translation unit of the system under test (-include).
// Seam for randomness: std::mt19937 and std::random_device become simulated
// types.  Pass-through draws are bit-identical to the real engine; the
// simulator sees every draw and may override single ones ("buggify").
#pragma once
#include <cstdint>
#include <random>

extern "C" std::uint32_t sim_rng_draw( std::uint32_t real_value );
extern "C" std::uint32_t sim_random_device_value();

namespace std
{
class sim_mt19937 : public mt19937
{
public:
    using base        = mt19937;
    using result_type = base::result_type;
    using base::base;
    sim_mt19937()                                  = default;
    sim_mt19937( const sim_mt19937 & )             = default;
    sim_mt19937 & operator=( const sim_mt19937 & ) = default;
    result_type operator()()
    {
        return sim_rng_draw( static_cast<std::uint32_t>( base::operator()() ) );
    }
};
class sim_random_device
{
public:
    using result_type = unsigned int;
    sim_random_device() = default;
    explicit sim_random_device( const char * ) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    double entropy() const noexcept { return 0; }
    result_type operator()() { return sim_random_device_value(); }
};
} // namespace std
#define mt19937 sim_mt19937
#define random_device sim_random_device
