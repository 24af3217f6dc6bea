// Setting up activity-driven models.  The models' sources are part of the harness' translation unit
// so that the inverse error function, whose own claims are checked in S03, can stay unspecified here.
#pragma once
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"
#include "util/math.hpp"
#ifdef SX_SYMBOLIC
template<>
inline double Seldon::Math::erfinv<double>( double x )
{
    return sx_ufn( "erfinv", x );
}
#endif
#include "src/models/ActivityDrivenModel.cpp"
#include "src/models/InertialModel.cpp"

namespace act
{
using namespace Seldon;

// number of draws made so far
inline uint64_t drawn( const std::mt19937 & g )
{
    return reinterpret_cast<const uint64_t *>( &g )[1];
}
inline uint64_t seedOf( const std::mt19937 & g )
{
    return reinterpret_cast<const uint64_t *>( &g )[0];
}

// some other network, so that anything left over from it would show
template<typename A>
Network<A> fresh( size_t n, bool junk )
{
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    if( junk )
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                if( ( i + 2 * j ) % 3 != 1 )
                    nb[i].push_back( j ), w[i].push_back( 0.25 + i );
    return Network<A>( std::move( nb ), std::move( w ), Network<A>::EdgeDirection::Incoming );
}

// the edges as contacts: c[i][j] is the number of edges from i to j (i influences j), for incoming edges
template<typename A>
std::vector<std::vector<int>> edges( const Network<A> & net )
{
    size_t n = net.n_agents();
    std::vector<std::vector<int>> c( n, std::vector<int>( n, 0 ) );
    for( size_t j = 0; j < n; j++ )
        for( auto i : net.get_neighbours( j ) )
        {
            sx_assert( i < n, "neighbours exist" );
            c[i][j]++;
        }
    return c;
}
} // namespace act
