// M02: DeGroot runs finish exactly on convergence or at the iteration limit.
//@ src: src/models/DeGroot.cpp
//@ bound: 1 to 2 agents, every edge list with weights in [-10, 10] and real opinions, every positive tolerance, no limit or any limit from 0 to 3, up to three steps
//@ outside: more than 2 agents (thorough: 3), limits above 3
//@ run quick: 1
//@ run quick: 2
//@ run thorough: 1
//@ run thorough: 2
//@ run thorough: 3
//@ reach: limit converged neither nolimit
#include "common.hpp"
#include "models/DeGroot.hpp"
using namespace Seldon;

extern "C" void sx_main()
{
    size_t n = sx_param( 0 );
    using Net = DeGrootModel::NetworkT;
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
        {
            nb[i].push_back( j );
            w[i].push_back( sx_real( "weight", -10, 10 ) );
        }
    Net net( std::move( nb ), std::move( w ), Net::EdgeDirection::Incoming );
    Config::DeGrootSettings settings;
    sx_close( settings.convergence_tol, 1e-6, 1e-15, "default tolerance" );
    bool deflt = sx_choice( "default tolerance", 2 );
    if( !deflt )
        settings.convergence_tol = sx_real( "tolerance", 0, 100 );
    double tol    = deflt ? 1e-6 : settings.convergence_tol;
    bool limited  = sx_choice( "limited", 2 );
    size_t limit  = sx_range( "limit", 0, 3 );
    if( limited )
        settings.max_iterations = limit;
    DeGrootModel model( settings, net );
    std::vector<double> x;
    for( size_t i = 0; i < n; i++ )
    {
        x.push_back( sx_real( "opinion", -100, 100 ) );
        net.agents[i].data.opinion = x[i];
    }
    sx_assert( model.n_iterations() == 0, "no iterations yet" );
    sx_assert( model.finished() == ( limited && limit == 0 ), "before the first iteration only the limit counts" );
    int steps = n == 1 ? 3 : 1 + sx_choice( "steps", 2 );
    for( int s = 1; s <= steps; s++ )
    {
        // the step under observation starts from arbitrary opinions, the earlier ones keep the state of the model
        if( s > 1 && n > 1 )
            for( size_t i = 0; i < n; i++ )
                net.agents[i].data.opinion = x[i] = sx_real( "opinion again", -100, 100 );
        model.iteration();
        sx_assert( model.n_iterations() == s, "iterations are counted" );
        if( s < steps && n > 1 )
            continue;
        bool conv = true;
        for( size_t i = 0; i < n; i++ )
        {
            double d = net.agents[i].data.opinion - x[i];
            conv     = conv && d < tol && -d < tol;
            x[i]     = net.agents[i].data.opinion;
        }
        bool lim = limited && limit <= s;
        sx_assert( model.finished() == ( lim || conv ), "finished exactly on convergence or at the limit" );
        sx_assert( model.finished() == ( lim || conv ), "asking does not change the answer" );
        sx_reach( lim ? "limit" : conv ? "converged" : "neither" );
        if( !limited )
            sx_reach( "nolimit" );
    }
}
