// F01: network files.
//@ bound: quick: 0..3 agents, every neighbour list of up to 2 entries (self loops and duplicates included) for up to 2 agents, up to 1 entry for 3 agents, a 12 agent ring with one chord; every real weight; thorough: 3 agents with lists of up to 2 entries
//@ outside: weights that are subnormal, infinite or NaN; files with more than 12 agents
//@ run quick: 2 2
//@ run quick: 3 1
//@ run quick: 12 0
//@ run thorough: 2 2
//@ run thorough: 3 2
//@ run thorough: 12 0
//@ reach: empty lonely last full
#include "agents/simple_agent.hpp"
#include "io.hpp"
#include "network.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;

extern "C" void sx_main()
{
    size_t N = sx_param( 0 ), D = sx_param( 1 );
    size_t n = N == 2 ? sx_choice( "agents", 3 ) : N;
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
    {
        size_t d = D ? sx_choice( "length", D + 1 ) : ( i == 5 ? 0 : i == 7 ? 3 : 1 );
        for( size_t e = 0; e < d; e++ )
        {
            nb[i].push_back( D ? sx_choice( "neighbour", n ) : ( i + 1 + 4 * e ) % n );
            w[i].push_back( sx_anyreal( "weight" ) );
        }
    }
    Net net( std::vector<std::vector<size_t>>( nb ), std::vector<std::vector<double>>( w ), Net::EdgeDirection::Incoming );
    Seldon::network_to_file( net, "net.txt" );

    // the text
    auto ls = hx::lines( hx::slurp( "net.txt" ) );
    sx_assert( ls.size() == n + 1, "one row per agent after the header" );
    sx_assert( ls[0] == "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]", "header" );
    for( size_t i = 0; i < n; i++ )
    {
        auto c = hx::columns( ls[i + 1] );
        sx_assert( c.size() == 2 + 2 * nb[i].size(), "number of columns" );
        sx_assert( c[0] == std::to_string( i ), "agent index" );
        sx_assert( c[1] == std::to_string( nb[i].size() ), "number of neighbours" );
        for( size_t e = 0; e < nb[i].size(); e++ )
        {
            sx_assert( c[2 + e] == std::to_string( nb[i][e] ), "neighbour index" );
            sx_same( std::stod( c[2 + nb[i].size() + e] ), w[i][e], "written weight" );
        }
    }
    // reading back
    auto back = Seldon::NetworkGeneration::generate_from_file<Seldon::SimpleAgent>( "net.txt" );
    sx_assert( back.n_agents() == n, "number of agents" );
    sx_assert( back.direction() == Net::EdgeDirection::Incoming, "incoming edges" );
    for( size_t i = 0; i < n; i++ )
    {
        auto r = back.get_neighbours( i );
        auto v = back.get_weights( i );
        sx_assert( r.size() == nb[i].size() && v.size() == nb[i].size(), "number of edges read" );
        for( size_t e = 0; e < nb[i].size(); e++ )
        {
            sx_assert( r[e] == nb[i][e], "neighbour read" );
            sx_same( v[e], w[i][e], "weight read" );
        }
        if( nb[i].empty() )
            sx_reach( i + 1 == n ? "last" : "lonely" );
        else
            sx_reach( "full" );
    }
    if( n == 0 )
        sx_reach( "empty" );
}
