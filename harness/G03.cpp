// G03: square lattices.
//@ bound: edge lengths 1..7 (thorough 12), any weight
//@ run quick: 7
//@ run thorough: 12
//@ reach: lattice
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network_generation.hpp"
#include <algorithm>

extern "C" void sx_main()
{
    size_t L  = sx_range( "edge", 1, sx_param( 0 ) );
    double w0 = sx_real( "weight", -10, 10 );
    auto net  = Seldon::NetworkGeneration::generate_square_lattice<Seldon::SimpleAgent>( L, w0 );
    L         = sx_conc( L );
    size_t n  = L * L;
    sx_assert( net.n_agents() == n, "number of agents" );
    std::vector<std::vector<int>> mult( n, std::vector<int>( n ) );
    for( size_t y = 0; y < L; y++ )
        for( size_t x = 0; x < L; x++ )
        {
            size_t i = x + L * y;
            auto nb  = net.get_neighbours( i );
            auto w   = net.get_weights( i );
            sx_assert( nb.size() == 4 && w.size() == 4, "four neighbours" );
            std::vector<size_t> got( nb.begin(), nb.end() );
            std::vector<size_t> want = { ( x + 1 ) % L + L * y, ( x + L - 1 ) % L + L * y, x + L * ( ( y + 1 ) % L ),
                                         x + L * ( ( y + L - 1 ) % L ) };
            std::sort( got.begin(), got.end() );
            std::sort( want.begin(), want.end() );
            sx_assert( got == want, "left, right, lower and upper neighbour with periodic boundaries" );
            for( size_t e = 0; e < 4; e++ )
            {
                sx_same( w[e], w0, "every edge has the requested weight" );
                mult[i][nb[e]]++;
            }
        }
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
            sx_assert( mult[i][j] == mult[j][i], "the neighbour relation is symmetric" );
    sx_reach( "lattice" );
}
