// A04: mean-field contact weights.
//@ bound: 2 to 4 agents, contact numbers 0 to 3, with and without a bot with its own contact number and homophily; every reciprocity in [0, 1] and activity in [0, 3]; either every homophily in [-3, 3] and concrete opinions (two of them equal or not) or every opinion and homophily -1, 0, 1; two steps
//@ assume: pow is a real function with equal values for equal arguments
//@ outside: more than 4 agents (thorough: 6); a single agent (its only weight is 0/0)
//@ run quick: 2
//@ run quick: 3
//@ run quick: 4
//@ run thorough: 2
//@ run thorough: 3
//@ run thorough: 4
//@ run thorough: 5
//@ run thorough: 6
//@ reach: bot plain below above equal
#include "act.hpp"
using namespace act;

template<typename ModelT, typename SettingsT, typename A>
static void claims( size_t n )
{
    bool bot  = sx_choice( "bot", 2 );
    int mode  = sx_choice( "mode", 4 ); // 0: any homophily, 1-3: any opinions
    SettingsT settings;
    settings.mean_weights = true;
    settings.m            = bot ? 2 : sx_choice( "m", 4 );
    settings.homophily    = mode == 0 ? sx_real( "homophily", -3, 3 ) : mode - 2.0;
    settings.reciprocity  = sx_real( "reciprocity", 0, 1 );
    settings.alpha = 0, settings.K = 1;
    settings.n_bots = bot;
    std::vector<double> x( n ), a( n );
    std::vector<double> hom( n, settings.homophily );
    std::vector<int> ms( n, settings.m );
    double grid[] = { 0.25, 0.25, 0.875, -0.5, 1.25, -2 };
    bool equal    = mode == 0 && sx_choice( "equal", 2 );
    for( size_t i = 0; i < n; i++ )
    {
        x[i] = mode == 0 ? ( !equal && i == 0 ? -0.125 : grid[i] ) : sx_real( "opinion", -2, 2 );
        if( mode && i )
            sx_assume( x[i] > x[i - 1] + 0.01 );
    }
    if( bot )
    {
        hom[0] = mode == 0 ? sx_real( "bot homophily", -3, 3 ) : 1.0;
        ms[0]  = sx_choice( "bot m", 4 );
        settings.bot_m.push_back( ms[0] );
        settings.bot_homophily.push_back( hom[0] );
        settings.bot_opinion.push_back( x[0] );
        settings.bot_activity.push_back( 0.5 );
    }
    auto net = fresh<A>( n, true );
    std::mt19937 gen( 5 );
    ModelT model( settings, net, gen );
    for( int s = 0; s < 2; s++ )
    {
        for( size_t i = 0; i < n; i++ )
        {
            net.agents[i].data.opinion = s ? x[i] : -3.0 + 2 * i;
            // one agent of any activity
            a[i] = i == 1 ? ( s ? sx_real( "activity", 0, 3 ) : 2.0 ) : i == 0 ? 0.5 : 1.75;
            net.agents[i].data.activity = a[i];
        }
        model.iteration();
    }
    // expected contact weights
    std::vector<std::vector<double>> q( n, std::vector<double>( n, 0.0 ) );
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> w( n, 0.0 );
        double norm = 0;
        for( size_t j = 0; j < n; j++ )
            if( i != j )
            {
                double d = x[i] > x[j] ? x[i] - x[j] : x[j] - x[i];
                if( d < 1e-10 )
                    d = 1e-10;
                w[j] = std::pow( d, -hom[i] );
                norm = norm + w[j];
            }
        double act = a[i] > 1 ? a[i] : 1.0;
        if( i == 1 )
            sx_reach( a[i] > 1 ? "above" : "below" );
        for( size_t j = 0; j < n; j++ )
            if( i != j )
            {
                // round k: omega (1 - omega + omega^2 - ...)
                double omega = w[j] / norm, p = 0, round = 0, power = omega;
                for( int k = 1; k <= ms[i]; k++ )
                {
                    round = round + power;
                    power = -power * omega;
                    p     = p + round;
                }
                q[i][j] = act * p;
            }
    }
    sx_assert( net.n_agents() == n, "number of agents" );
    sx_assert( net.direction() == Network<A>::EdgeDirection::Incoming, "incoming edges" );
    for( size_t j = 0; j < n; j++ )
    {
        auto nb = net.get_neighbours( j );
        auto w  = net.get_weights( j );
        sx_assert( nb.size() == n && w.size() == n, "fully connected" );
        std::vector<int> seen( n, 0 );
        for( size_t e = 0; e < n; e++ )
        {
            sx_assert( nb[e] < n && !seen[nb[e]]++, "fully connected" );
            size_t i = nb[e];
            if( i == j )
                sx_close( w[e], 0.0, 1e-12, "no weight towards oneself" );
            else
                sx_close( w[e], q[i][j] + ( 1.0 - q[i][j] ) * settings.reciprocity * q[j][i], 1e-6,
                          "mean-field weight" );
        }
    }
    sx_reach( bot ? "bot" : "plain" );
    if( equal )
        sx_reach( "equal" );
}

extern "C" void sx_main()
{
    size_t n = sx_param( 0 );
    if( n == 2 && sx_choice( "inertial", 2 ) )
        claims<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>( n );
    else
        claims<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>( n );
}
