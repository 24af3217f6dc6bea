// G01: random networks with n connections per agent.
//@ bound: quick: 1..4 agents, 0..4 connections (more than there are agents included), with and without self interaction, all draws
//@ assume: uniform draws lie strictly between 0 and 1
//@ outside: more than 4 agents (thorough: 5)
//@ run quick: 3
//@ run quick: 4
//@ run thorough: 5
//@ reach: self noself all
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network_generation.hpp"

extern "C" void sx_main()
{
    size_t nmax = sx_param( 0 );
    size_t n    = nmax == 3 ? 1 + sx_choice( "agents", 3 ) : nmax;
    size_t k    = sx_choice( "connections", n + 1 );
    bool self   = sx_choice( "self", 2 );
    // by symmetry between agents (each agent's draws are independent) small k for the larger n
    if( n > 4 )
        sx_assume( k <= 1 || k >= n - 1 );
    std::mt19937 gen( 1 );
    auto net = Seldon::NetworkGeneration::generate_n_connections<Seldon::SimpleAgent>( n, k, self, gen );
    sx_assert( net.n_agents() == n, "number of agents" );
    sx_assert( net.direction() == decltype( net )::EdgeDirection::Incoming, "incoming edges" );
    size_t others = k < n - 1 ? k : n - 1;
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        sx_assert( nb.size() == others + ( self ? 1 : 0 ), "number of neighbours" );
        sx_assert( w.size() == nb.size(), "as many weights as neighbours" );
        std::vector<int> seen( n, 0 );
        double sum = 0;
        for( size_t e = 0; e < nb.size(); e++ )
        {
            sx_assert( nb[e] < n, "neighbours exist" );
            seen[nb[e]]++;
            sx_le( 0, w[e], 0, "weights are not negative" );
            sum = sum + w[e];
        }
        for( size_t j = 0; j < n; j++ )
            sx_assert( seen[j] <= 1, "neighbours are distinct" );
        sx_assert( seen[i] == ( self ? 1 : 0 ), "self interaction exactly when requested" );
        if( nb.size() )
            sx_close( sum, 1.0, 1e-12, "weights sum to one" );
        if( k >= n )
            sx_reach( "all" );
    }
    if( self )
        sx_reach( "self" );
    else
        sx_reach( "noself" );
}
