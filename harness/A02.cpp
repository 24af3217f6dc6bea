// A02: activity-driven opinions advance by one Runge-Kutta step over the current contact network.
//@ bound: 2 or 3 agents, contact number 1 with every pattern of active agents and contact number 2, reciprocity 0 or 1; every real opinion in [-5, 5], reluctance in [0.1, 10], K, controversialness and step size; mean-field weights for 2 agents; 5 agents one of which contacts all others; mean-field weights for 6 agents; two steps for 2 agents (the second from arbitrary opinions)
//@ assume: tanh is a real function (equal arguments give equal results)
//@ outside: other networks of more than 3 agents; opinions in descending order for 3 agents
//@ run quick: 2 0
//@ run quick: 3 0
//@ run quick: 2 1
//@ run quick: 5 0
//@ run quick: 6 1
//@ run thorough: 2 0
//@ run thorough: 3 0
//@ run thorough: 2 1
//@ run thorough: 6 0
//@ run thorough: 5 0
//@ run thorough: 6 1
//@ reach: edges noedges meanfield
#include "act.hpp"
using namespace act;

extern "C" void sx_main()
{
    size_t n  = sx_param( 0 );
    bool mean = sx_param( 1 );
    Config::ActivityDrivenSettings settings;
    sx_close( settings.dt, 0.01, 1e-15, "default step size" );
    bool wide             = n > 3 && !mean; // one active agent contacts everybody
    settings.m            = wide ? n - 1 : n == 2 ? 1 : 1 + sx_choice( "m", 2 );
    settings.homophily    = mean ? 1.0 : 0.0;
    settings.reciprocity  = sx_choice( "reciprocity", 2 );
    settings.mean_weights = mean;
    settings.alpha        = sx_real( "alpha", 0, 10 );
    settings.K            = sx_real( "K", 0, 10 );
    settings.dt           = sx_real( "dt", 0, 1 );
    std::vector<double> activity;
    size_t one = wide ? sx_choice( "one", n ) : 0;
    for( size_t i = 0; i < n; i++ )
        activity.push_back( wide ? i == one : settings.m == 2 && i == 1 ? 0 : sx_choice( "active", 2 ) );
    auto net = fresh<ActivityAgent>( n, true );
    std::mt19937 gen( 5 );
    ActivityDrivenModel model( settings, net, gen );
    std::vector<double> x( n ), r( n );
    for( size_t i = 0; i < n; i++ )
    {
        r[i]                          = sx_real( "reluctance", 0.1, 10 );
        net.agents[i].data.activity   = activity[i];
        net.agents[i].data.reluctance = r[i];
    }
    int steps = n == 2 ? 2 : 1;
    for( int s = 0; s < steps; s++ )
    {
        for( size_t i = 0; i < n; i++ )
            net.agents[i].data.opinion = x[i] = mean ? ( s ? 0.5 : 0.25 ) * i + 0.125 : sx_real( "opinion", -5, 5 );
        // the order of the opinions only matters for the contact weights, which are one here
        for( size_t i = 0; n > 2 && i + 1 < n; i++ )
            sx_assume( x[i + 1] > x[i] + 1e-6 );
        model.iteration();
        bool any     = false;
        auto slope   = [&]( const std::vector<double> & y )
        {
            std::vector<double> k( n );
            for( size_t i = 0; i < n; i++ )
            {
                auto nb = net.get_neighbours( i );
                auto w  = net.get_weights( i );
                double f = 0;
                for( size_t e = 0; e < nb.size(); e++ )
                {
                    any = true;
                    f   = f + w[e] * std::tanh( settings.alpha * y[nb[e]] );
                }
                k[i] = settings.K / r[i] * f - y[i];
            }
            return k;
        };
        auto plus = [&]( const std::vector<double> & k, double h )
        {
            std::vector<double> y( n );
            for( size_t i = 0; i < n; i++ )
                y[i] = x[i] + h * k[i];
            return y;
        };
        double h = settings.dt;
        auto k1 = slope( x ), k2 = slope( plus( k1, h / 2 ) ), k3 = slope( plus( k2, h / 2 ) ), k4 = slope( plus( k3, h ) );
        sx_assert( net.n_agents() == n, "number of agents" );
        for( size_t i = 0; i < n; i++ )
        {
            double y = x[i] + h * ( k1[i] / 6 + k2[i] / 3 + k3[i] / 3 + k4[i] / 6 );
            sx_close( net.agents[i].data.opinion, y, 1e-9, "one Runge-Kutta step" );
            sx_same( net.agents[i].data.activity, activity[i], "activities do not change" );
            sx_same( net.agents[i].data.reluctance, r[i], "reluctances do not change" );
        }
        sx_reach( mean ? "meanfield" : any ? "edges" : "noedges" );
    }
}
