// A05: inertial opinions and velocities advance by one damped velocity-Verlet step.
//@ bound: 2 or 3 agents, contact number 1 with every pattern of active agents and contact number 2, reciprocity 0 or 1; every real opinion and velocity in [-5, 5], reluctance in [0.1, 10], K, controversialness, friction and step size; 5 agents one of which contacts all others; mean-field weights for 6 agents; two steps for 2 agents (the second from arbitrary opinions and velocities)
//@ assume: tanh is a real function (equal arguments give equal results)
//@ outside: other networks of more than 3 agents; opinions in descending order for 3 agents
//@ run quick: 2 0
//@ run quick: 3 0
//@ run quick: 2 1
//@ run quick: 5 0
//@ run quick: 6 1
//@ run thorough: 2 0
//@ run thorough: 3 0
//@ run thorough: 2 1
//@ run thorough: 6 0
//@ run thorough: 5 0
//@ run thorough: 6 1
//@ reach: edges noedges meanfield
#include "act.hpp"
using namespace act;

extern "C" void sx_main()
{
    size_t n  = sx_param( 0 );
    bool mean = sx_param( 1 );
    Config::ActivityDrivenInertialSettings settings;
    sx_close( settings.friction_coefficient, 1.0, 1e-15, "default friction" );
    bool wide                     = n > 3 && !mean; // one active agent contacts everybody
    settings.m                    = wide ? n - 1 : n == 2 ? 1 : 1 + sx_choice( "m", 2 );
    settings.homophily            = mean ? 1.0 : 0.0;
    settings.reciprocity          = sx_choice( "reciprocity", 2 );
    settings.mean_weights         = mean;
    settings.alpha                = sx_real( "alpha", 0, 10 );
    settings.K                    = sx_real( "K", 0, 10 );
    settings.dt                   = sx_real( "dt", 0, 1 );
    settings.friction_coefficient = sx_real( "friction", 0, 10 );
    double h = settings.dt, g = settings.friction_coefficient;
    std::vector<double> activity;
    size_t one = wide ? sx_choice( "one", n ) : 0;
    for( size_t i = 0; i < n; i++ )
        activity.push_back( wide ? i == one : settings.m == 2 && i == 1 ? 0 : sx_choice( "active", 2 ) );
    auto net = fresh<InertialAgent>( n, true );
    std::mt19937 gen( 5 );
    InertialModel model( settings, net, gen );
    std::vector<double> x( n ), v( n ), r( n );
    for( size_t i = 0; i < n; i++ )
    {
        sx_same( net.agents[i].data.velocity, 0.0, "agents start at rest" );
        r[i]                          = sx_real( "reluctance", 0.1, 10 );
        net.agents[i].data.activity   = activity[i];
        net.agents[i].data.reluctance = r[i];
    }
    int steps = n == 2 ? 2 : 1;
    for( int s = 0; s < steps; s++ )
    {
        for( size_t i = 0; i < n; i++ )
        {
            net.agents[i].data.opinion = x[i] = mean ? ( s ? 0.5 : 0.25 ) * i + 0.125 : sx_real( "opinion", -5, 5 );
            net.agents[i].data.velocity = v[i] = sx_real( "velocity", -5, 5 );
        }
        // the order of the opinions only matters for the contact weights, which are one here
        for( size_t i = 0; n > 2 && i + 1 < n; i++ )
            sx_assume( x[i + 1] > x[i] + 1e-6 );
        model.iteration();
        bool any   = false;
        auto force = [&]( const std::vector<double> & y )
        {
            std::vector<double> k( n );
            for( size_t i = 0; i < n; i++ )
            {
                auto nb  = net.get_neighbours( i );
                auto w   = net.get_weights( i );
                double f = 0;
                for( size_t e = 0; e < nb.size(); e++ )
                {
                    any = true;
                    f   = f + w[e] * std::tanh( settings.alpha * y[nb[e]] );
                }
                k[i] = settings.K / r[i] * f - y[i];
            }
            return k;
        };
        auto f1 = force( x );
        std::vector<double> y( n );
        for( size_t i = 0; i < n; i++ )
            y[i] = x[i] + v[i] * h + ( f1[i] - g * v[i] ) * h * h / 2;
        auto f2 = force( y );
        sx_assert( net.n_agents() == n, "number of agents" );
        for( size_t i = 0; i < n; i++ )
        {
            sx_close( net.agents[i].data.opinion, y[i], 1e-9, "positions follow velocity Verlet" );
            double u = ( v[i] + h / 2 * ( f1[i] - g * v[i] + f2[i] ) ) / ( 1 + g * h / 2 );
            sx_close( net.agents[i].data.velocity, u, 1e-9, "velocities follow damped velocity Verlet" );
            sx_same( net.agents[i].data.activity, activity[i], "activities do not change" );
            sx_same( net.agents[i].data.reluctance, r[i], "reluctances do not change" );
        }
        sx_reach( mean ? "meanfield" : any ? "edges" : "noedges" );
    }
}
