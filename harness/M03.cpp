// M03: the basic Deffuant interaction.
//@ src: src/models/DeffuantModel.cpp
//@ bound: every pair of opinions in [-100, 100], every threshold in [0, 100], every convergence parameter in [-2, 2]; initial opinions for 1 to 12 agents
//@ outside: more than 12 agents for the initial opinions
//@ run quick: 0
//@ reach: apart near convex
#include "common.hpp"
#include "models/DeffuantModel.hpp"
using namespace Seldon;

extern "C" void sx_main()
{
    size_t n = 1 + sx_choice( "agents", 12 );
    DeffuantModel::NetworkT net( n );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings settings;
    sx_close( settings.homophily_threshold, 0.2, 1e-15, "default threshold" );
    sx_close( settings.mu, 0.5, 1e-15, "default convergence parameter" );
    double thr = sx_real( "threshold", 0, 100 ), mu = sx_real( "mu", -2, 2 );
    settings.homophily_threshold = thr;
    settings.mu                  = mu;
    settings.use_network         = false;
    DeffuantModel model( settings, net, gen );
    model.initialize_agents( 1 );
    sx_assert( net.n_agents() == n, "number of agents" );
    for( size_t i = 0; i < n; i++ )
        sx_close( net.agents[i].data.opinion, double( i ) / double( n ), 1e-12, "initial opinions are i/n" );
    if( n != 2 )
        return;
    double a = sx_real( "a", -100, 100 ), b = sx_real( "b", -100, 100 );
    size_t p = sx_choice( "order", 2 );
    auto &x = net.agents[p], &y = net.agents[1 - p];
    x.data.opinion = a, y.data.opinion = b;
    model.update_rule( x, y );
    double a2 = x.data.opinion, b2 = y.data.opinion;
    if( a - b < thr && b - a < thr )
    {
        sx_close( a2, a + mu * ( b - a ), 1e-9, "the first agent moves towards the second" );
        sx_close( b2, b + mu * ( a - b ), 1e-9, "the second agent moves towards the first" );
        sx_close( a2 + b2, a + b, 1e-9, "the sum is conserved" );
        sx_reach( "near" );
        if( mu >= 0 && mu <= 1 )
        {
            double lo = a < b ? a : b, hi = a < b ? b : a;
            sx_le( lo, a2, 1e-9, "inside the interval" );
            sx_le( a2, hi, 1e-9, "inside the interval" );
            sx_le( lo, b2, 1e-9, "inside the interval" );
            sx_le( b2, hi, 1e-9, "inside the interval" );
            sx_reach( "convex" );
        }
    }
    else
    {
        sx_same( a2, a, "opinions too far apart do not change" );
        sx_same( b2, b, "opinions too far apart do not change" );
        sx_reach( "apart" );
    }
}
