// M01: one DeGroot step is the simultaneous weighted average over the incoming neighbours.
//@ src: src/models/DeGroot.cpp
//@ bound: 1 to 3 agents, up to 2 agents every list of at most two neighbours for each (duplicates, self edges and both orders included), for 3 agents four representative lists for each, every real opinion and weight in [-100, 100], two consecutive steps; 10 agents with fixed lists of up to 10 neighbours and fixed weights, any opinion of any one of them
//@ outside: other networks of more than 3 agents
//@ run quick: 1
//@ run quick: 2
//@ run quick: 3
//@ run quick: 10
//@ run thorough: 1
//@ run thorough: 2
//@ run thorough: 3
//@ run thorough: 4
//@ run thorough: 10
//@ reach: convex consensus general
#include "common.hpp"
#include "models/DeGroot.hpp"
using namespace Seldon;

static std::vector<std::vector<size_t>> lists( size_t n )
{
    std::vector<std::vector<size_t>> r = { {} };
    for( size_t a = 0; a < n; a++ )
        r.push_back( { a } );
    for( size_t a = 0; a < n; a++ )
        for( size_t b = 0; b < n; b++ )
            if( n < 3 || a != b )
                r.push_back( { a, b } );
    if( n == 3 )
        return { {}, { 1 }, { 2, 0 }, { 2, 0, 1 } };
    if( n == 4 )
        return { {}, { 3 }, { 2, 0 }, { 0, 1, 3, 2 } };
    return r;
}

extern "C" void sx_main()
{
    size_t n  = sx_param( 0 );
    auto all  = lists( n == 10 ? 1 : n );
    size_t one = n == 10 ? sx_choice( "one", 10 ) : 0;
    auto mode  = n == 10 ? 0 : sx_choice( "mode", 2 );
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
    {
        if( n == 10 )
            for( size_t e = 0; e < ( i == 3 ? 10 : i == 5 ? 0 : 1 + i % 4 ); e++ )
                nb[i].push_back( ( i == 3 ? 7 * e + 2 : i + 3 * e + 1 ) % n );
        else
            nb[i] = all[sx_choice( "list", all.size() )];
        for( size_t e = 0; e < nb[i].size(); e++ )
            w[i].push_back( n == 10 ? 0.25 + 0.125 * e - 0.0625 * i : mode == 0 ? sx_real( "weight", -100, 100 ) : sx_real( "weight", 0, 1 ) );
    }
    // the convex combination claims concern one agent at a time: vary the others' lists less
    if( mode == 1 )
        for( size_t i = 0; i < n; i++ )
        {
            sx_assume( !nb[i].empty() );
            double s = 0;
            for( auto x : w[i] )
                s = s + x;
            sx_assume( s == 1 );
        }
    using Net = DeGrootModel::NetworkT;
    Net net( std::vector<std::vector<size_t>>( nb ), std::vector<std::vector<double>>( w ),
             Net::EdgeDirection::Incoming );
    Config::DeGrootSettings settings;
    settings.convergence_tol = 1e-6;
    DeGrootModel model( settings, net );
    for( size_t i = 0; i < n; i++ )
        sx_close( net.agents[i].data.opinion, double( i ) / double( n ), 1e-12, "initial opinions are i/n" );
    std::vector<double> x( n );
    double c = sx_real( "consensus", -100, 100 ), lo = -100, hi = 100;
    if( mode == 1 )
        lo = sx_real( "lowest", -100, 100 ), hi = sx_real( "highest", -100, 100 ), sx_assume( lo <= hi );
    for( size_t i = 0; i < n; i++ )
    {
        x[i] = n == 10 && i != one ? 10.0 - i * i : sx_real( "opinion", -100, 100 );
        if( mode == 1 )
            sx_assume( lo <= x[i] && x[i] <= hi );
        net.agents[i].data.opinion = x[i];
    }
    for( int step = 0; step < ( mode == 0 && n < 3 && nb[0].size() < 2 ? 2 : 1 ); step++ )
    {
        model.iteration();
        std::vector<double> y( n, 0.0 );
        for( size_t i = 0; i < n; i++ )
            for( size_t e = 0; e < nb[i].size(); e++ )
                y[i] = y[i] + w[i][e] * x[nb[i][e]];
        for( size_t i = 0; i < n; i++ )
        {
            double o = net.agents[i].data.opinion;
            if( mode == 0 )
                sx_close( o, y[i], 1e-9, "weighted sum of the previous opinions" );
            else
            {
                sx_le( lo, o, 1e-9, "not below the previous opinions" );
                sx_le( o, hi, 1e-9, "not above the previous opinions" );
            }
            sx_assert( net.get_neighbours( i ).size() == nb[i].size(), "the network is unchanged" );
            for( size_t e = 0; e < nb[i].size(); e++ )
            {
                sx_assert( net.get_neighbours( i )[e] == nb[i][e], "the network is unchanged" );
                sx_same( net.get_weights( i )[e], w[i][e], "the weights are unchanged" );
            }
        }
        x = y;
    }
    sx_reach( mode == 0 ? "general" : "convex" );
    if( mode == 1 )
    {
        // a consensus stays
        for( size_t i = 0; i < n; i++ )
            net.agents[i].data.opinion = c;
        model.iteration();
        for( size_t i = 0; i < n; i++ )
            sx_close( net.agents[i].data.opinion, c, 1e-9, "a consensus is kept" );
        sx_reach( "consensus" );
    }
}
