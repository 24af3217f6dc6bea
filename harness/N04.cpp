// N04: strongly connected components.
//@ bound: quick: every directed graph on 3 nodes with self loops, every graph on 4 nodes without, every 4 node graph with two arbitrary outgoing edges per node, a chain of cycles of 3, 3, 2 and 1 nodes with two more arbitrary edges at the front or the end of their nodes' lists; thorough: additionally 5 nodes with up to two outgoing edges each
//@ outside: larger graphs
//@ run quick: 3 0
//@ run quick: 4 1
//@ run quick: 9 3
//@ run thorough: 3 0
//@ run thorough: 4 1
//@ run thorough: 9 3
//@ run thorough: 5 2 --paths 2000000
//@ reach: cycle split
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;

extern "C" void sx_main()
{
    size_t n = sx_param( 0 ), mode = sx_param( 1 );
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    std::vector<std::vector<bool>> reach( n, std::vector<bool>( n ) );
    if( mode == 3 )
    {
        bool front = sx_choice( "front", 2 );
        nb         = { { 1 }, { 2 }, { 0, 3 }, { 4 }, { 5 }, { 6, 3 }, { 7 }, { 6, 8 }, {} };
        for( int e = 0; e < 2; e++ )
        {
            size_t from = sx_choice( "from", n ), to = sx_choice( "to", n );
            nb[from].insert( front ? nb[from].begin() : nb[from].end(), to );
        }
    }
    for( size_t i = 0; i < n; i++ )
    {
        if( mode == 3 )
            ;
        else if( mode == 2 )
        {
            // increasing targets (parallel edges do not matter): node n stands for "no edge"
            size_t a = sx_range( "edge", 0, n ), b = sx_range( "edge", 0, n );
            sx_assume( a <= b );
            a = sx_conc( a ), b = sx_conc( b );
            if( a < n )
                nb[i].push_back( a );
            if( b < n )
                nb[i].push_back( b );
        }
        else
            for( size_t j = 0; j < n; j++ )
                if( ( mode == 0 || j != i ) && sx_range( "edge", 0, 1 ) == 1 )
                    nb[i].push_back( j );
        w[i].resize( nb[i].size(), 1.0 );
        reach[i][i] = true;
        for( auto j : nb[i] )
            reach[i][j] = true;
    }
    for( size_t k = 0; k < n; k++ )
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                if( reach[i][k] && reach[k][j] )
                    reach[i][j] = true;
    Net net( std::move( nb ), std::move( w ), Net::EdgeDirection::Incoming );
    auto scc = net.strongly_connected_components();
    std::vector<int> comp( n, -1 );
    for( size_t c = 0; c < scc.size(); c++ )
    {
        sx_assert( !scc[c].empty(), "no empty component" );
        for( auto v : scc[c] )
        {
            sx_assert( v < n, "components contain agents" );
            sx_assert( comp[v] == -1, "every agent in at most one component" );
            comp[v] = c;
        }
    }
    for( size_t i = 0; i < n; i++ )
    {
        sx_assert( comp[i] >= 0, "every agent in some component" );
        for( size_t j = 0; j < n; j++ )
        {
            sx_assert( ( comp[i] == comp[j] ) == ( reach[i][j] && reach[j][i] ), "same component if and only if mutually reachable" );
            if( i != j && comp[i] == comp[j] )
                sx_reach( "cycle" );
            if( comp[i] != comp[j] )
                sx_reach( "split" );
        }
    }
}
