// Force-included before every translation unit (symbolic and replay build).
// Replaces the Mersenne Twister's bit stream by arbitrary draws: the state of
// an engine is (seed, number of draws so far), so equal seeds give equal
// streams and the engine can be copied like the real one.
#pragma once
#include "sx.h"
#include <fmt/format.h>
#include <limits>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <vector>

namespace std
{
// entropy: never the same value twice
class sx_random_device
{
public:
    using result_type = unsigned int;
    sx_random_device() = default;
    explicit sx_random_device( const string & ) {}
    sx_random_device( const sx_random_device & ) = delete;
    void operator=( const sx_random_device & ) = delete;
    static constexpr result_type min()
    {
        return 0;
    }
    static constexpr result_type max()
    {
        return ~0u;
    }
    double entropy() const noexcept
    {
        return 32;
    }
    result_type operator()()
    {
        static unsigned int calls = 0;
        return 0x9e3779b9u * ++calls;
    }
};
template<>
inline void mt19937::seed( result_type s )
{
    _M_x[0] = s;
    _M_x[1] = 0;
    _M_p    = 0;
}
template<>
inline mt19937::result_type mt19937::operator()()
{
    return sx_draw_raw( _M_x[0], _M_x[1]++ );
}
template<>
inline void mt19937::discard( unsigned long long z )
{
    _M_x[1] += z;
}
template<>
inline double generate_canonical<double, 53, mt19937>( mt19937 & g )
{
    // a member of the standard library's own implementation detail: seed and counter
    struct Peek
    {
        unsigned long x[mt19937::state_size];
        size_t p;
    };
    static_assert( sizeof( Peek ) == sizeof( mt19937 ) );
    auto & s = reinterpret_cast<Peek &>( g );
    return sx_draw_u01( s.x[0], s.x[1]++ );
}
#define SX_PEEK( g )                                                                                                   \
    struct Peek                                                                                                        \
    {                                                                                                                  \
        unsigned long x[mt19937::state_size];                                                                          \
        size_t p;                                                                                                      \
    };                                                                                                                 \
    auto & s = reinterpret_cast<Peek &>( g );
template<>
template<>
inline double uniform_real_distribution<double>::operator()( mt19937 & g, const param_type & p )
{
    SX_PEEK( g )
    double u = sx_draw_u01( s.x[0], s.x[1]++ );
    return u * ( p.b() - p.a() ) + p.a();
}
template<>
template<>
inline double normal_distribution<double>::operator()( mt19937 & g, const param_type & p )
{
    // like the real distribution, which makes two values at a time and keeps the second in its own state
    double z;
    if( _M_saved_available )
    {
        _M_saved_available = false;
        z                  = _M_saved;
    }
    else
    {
        SX_PEEK( g )
        _M_saved           = sx_draw_normal( s.x[0], s.x[1]++ );
        _M_saved_available = true;
        z                  = sx_draw_normal( s.x[0], s.x[1]++ );
    }
    return z * p.stddev() + p.mean();
}
#define SX_UINT( T )                                                                                                   \
    template<>                                                                                                         \
    template<>                                                                                                         \
    inline T uniform_int_distribution<T>::operator()( mt19937 & g, const param_type & p )                              \
    {                                                                                                                  \
        SX_PEEK( g )                                                                                                   \
        return (T)sx_draw_int( s.x[0], s.x[1]++, p.a(), p.b() );                                                       \
    }
#define SX_SINT( T )                                                                                                   \
    template<>                                                                                                         \
    template<>                                                                                                         \
    inline T uniform_int_distribution<T>::operator()( mt19937 & g, const param_type & p )                              \
    {                                                                                                                  \
        SX_PEEK( g )                                                                                                   \
        return (T)sx_draw_sint( s.x[0], s.x[1]++, p.a(), p.b() );                                                      \
    }
SX_UINT( unsigned long )
SX_UINT( unsigned long long )
SX_UINT( unsigned int )
SX_UINT( unsigned short )
SX_SINT( long )
SX_SINT( long long )
SX_SINT( int )
SX_SINT( short )
} // namespace std

#define random_device sx_random_device

#if FMT_VERSION < 100000
template<typename T>
struct fmt::formatter<std::optional<T>> : fmt::formatter<T>
{
    template<typename Ctx>
    auto format( const std::optional<T> & o, Ctx & ctx )
    {
        if( o )
            return fmt::formatter<T>::format( *o, ctx );
        return fmt::format_to( ctx.out(), "none" );
    }
};
#endif
