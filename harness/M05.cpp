// M05: vector Deffuant interactions.
//@ src: src/models/DeffuantModelVector.cpp
//@ bound: vectors of 0 to 4 components, every 32 bit value, every threshold in [0, 10] and convergence parameter in [0, 1], every draw; initial opinions for up to 3 agents of up to 4 components
//@ outside: longer vectors (thorough: 6)
//@ run quick: 4
//@ run thorough: 6
//@ reach: apart near differ first second initial
#include "common.hpp"
#include "models/DeffuantModel.hpp"
using namespace Seldon;

extern "C" void sx_main()
{
    size_t dim = sx_choice( "dimension", sx_param( 0 ) + 1 );
    size_t n   = 1 + sx_choice( "agents", 3 );
    DeffuantModelVector::NetworkT net( n );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings settings;
    settings.homophily_threshold = sx_real( "threshold", 0, 10 );
    settings.mu                  = sx_real( "mu", 0, 1 );
    settings.use_network         = false;
    settings.use_binary_vector   = true;
    settings.dim                 = dim;
    DeffuantModelVector model( settings, net, gen );
    if( n != 2 )
    {
        model.initialize_agents( dim );
        for( auto & a : net.agents )
        {
            sx_assert( a.data.opinion.size() == dim, "initial opinions have the configured dimension" );
            for( auto o : a.data.opinion )
                sx_assert( o == 0 || o == 1, "initial opinions are binary" );
        }
        sx_assert( net.n_agents() == n, "number of agents" );
        sx_reach( "initial" );
        return;
    }
    std::vector<int> a, b;
    for( size_t i = 0; i < dim; i++ )
    {
        a.push_back( sx_irange( "a", INT32_MIN, INT32_MAX ) );
        b.push_back( sx_irange( "b", INT32_MIN, INT32_MAX ) );
    }
    net.agents[0].data.opinion = a;
    net.agents[1].data.opinion = b;
    int distance               = 0;
    for( size_t i = 0; i < dim; i++ )
        if( a[i] != b[i] )
            distance++;
    model.update_rule( net.agents[0], net.agents[1] );
    auto &x = net.agents[0].data.opinion, &y = net.agents[1].data.opinion;
    sx_assert( x.size() == dim && y.size() == dim, "the length is kept" );
    if( distance < settings.homophily_threshold )
    {
        for( size_t i = 0; i < dim; i++ )
        {
            sx_assert( x[i] == y[i], "both agree afterwards" );
            sx_assert( x[i] == a[i] || x[i] == b[i], "no new opinions" );
            if( a[i] != b[i] )
                sx_reach( x[i] == a[i] ? "first" : "second" );
        }
        sx_reach( distance ? "differ" : "near" );
    }
    else
    {
        for( size_t i = 0; i < dim; i++ )
        {
            sx_assert( x[i] == a[i], "the first agent keeps its opinions" );
            sx_assert( y[i] == b[i], "the second agent keeps its opinions" );
        }
        sx_reach( "apart" );
    }
}
