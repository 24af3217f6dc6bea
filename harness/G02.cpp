// G02: fully connected networks.
//@ bound: 1..6 agents, any weight, all draws
//@ assume: uniform draws lie strictly between 0 and 1
//@ run quick: 6
//@ run thorough: 10
//@ reach: constant random
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network_generation.hpp"

extern "C" void sx_main()
{
    size_t n     = 1 + sx_choice( "agents", sx_param( 0 ) );
    bool random  = sx_choice( "random", 2 );
    double w0    = sx_real( "weight", -10, 10 );
    std::mt19937 gen( 1 );
    auto net = random ? Seldon::NetworkGeneration::generate_fully_connected<Seldon::SimpleAgent>( n, gen )
                      : Seldon::NetworkGeneration::generate_fully_connected<Seldon::SimpleAgent>( n, w0 );
    sx_assert( net.n_agents() == n, "number of agents" );
    sx_assert( net.direction() == decltype( net )::EdgeDirection::Incoming, "incoming edges" );
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        sx_assert( nb.size() == n && w.size() == n, "number of neighbours" );
        std::vector<int> seen( n, 0 );
        double sum = 0;
        for( size_t e = 0; e < n; e++ )
        {
            sx_assert( nb[e] < n, "neighbours exist" );
            seen[nb[e]]++;
            if( random )
                sx_le( 0, w[e], 0, "weights are not negative" );
            else
                sx_same( w[e], w0, "every edge has the requested weight" );
            sum = sum + w[e];
        }
        for( size_t j = 0; j < n; j++ )
            sx_assert( seen[j] == 1, "every agent exactly once" );
        if( random )
            sx_close( sum, 1.0, 1e-12, "weights sum to one" );
    }
    if( random )
        sx_reach( "random" );
    else
        sx_reach( "constant" );
}
