// A01: how likely the contact networks are.
//@ bound: 2 and 3 agents with given activities and reciprocity who contact everybody when active; one step, and a second one for 2 agents; the probability of every network
//@ assume: uniform draws are independent and uniform
//@ run quick: 2
//@ run quick: 3
//@ reach: law twice
#include "act.hpp"
using namespace act;

template<typename ModelT, typename SettingsT, typename A>
static void claims()
{
    size_t n  = sx_param( 0 );
    bool many = n == 3 && sx_choice( "many", 2 );
    int steps = n == 2 ? 1 + sx_choice( "steps", 2 ) : 1;
    // in eighths
    long activity[] = { 4, 6, 2 }, r = many ? 6 : 3;
    if( many )
        activity[0] = 8, activity[1] = 1;
    auto net = fresh<A>( n, true );
    SettingsT settings;
    settings.m = n, settings.homophily = 0, settings.reciprocity = r / 8.0;
    settings.alpha = 0, settings.K = 1, settings.max_iterations = 5;
    std::mt19937 gen( 3 );
    ModelT model( settings, net, gen );
    for( size_t i = 0; i < n; i++ )
    {
        net.agents[i].data          = {};
        net.agents[i].data.activity = activity[i] / 8.0;
        net.agents[i].data.opinion  = 0.25 * i;
    }
    std::string outcome;
    long num = 1, den = 1;
    for( int s = 0; s < steps; s++ )
    {
        model.iteration();
        auto c = edges( net );
        // the probability of these edges: over who may have been active
        long total = 0, all = 1;
        for( size_t i = 0; i < n; i++ )
            all *= 8;
        for( size_t i = 0; i < n * ( n - 1 ) / 2; i++ )
            all *= 8;
        for( size_t active = 0; active < size_t( 1 ) << n; active++ )
        {
            long p = 1;
            for( size_t i = 0; i < n; i++ )
                p *= active >> i & 1 ? activity[i] : 8 - activity[i];
            for( size_t i = 0; i < n; i++ )
                for( size_t j = 0; j < i; j++ )
                {
                    bool a = active >> i & 1, b = active >> j & 1;
                    if( a && b )
                        p *= c[i][j] && c[j][i] ? 8 : 0;
                    else if( !a && !b )
                        p *= c[i][j] || c[j][i] ? 0 : 8;
                    else if( a ? c[i][j] : c[j][i] )
                        p *= ( a ? c[j][i] : c[i][j] ) ? r : 8 - r;
                    else
                        p = 0;
                }
            total += p;
        }
        num *= total, den *= all;
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                if( c[i][j] )
                    outcome += ( outcome.empty() ? "" : " " ) + std::to_string( s ) + ":" + std::to_string( i ) + ">" + std::to_string( j );
        for( size_t i = 0; i < n; i++ )
            net.agents[i].data.opinion = 0.25 * i;
    }
    std::string group = ( std::is_same_v<A, InertialAgent> ? "inertial-" : "" ) + hx::nm( many ? "contacts-of-many-" : "contacts-of-", n, steps );
    sx_outcome( group.c_str(), outcome.empty() ? "none" : outcome.c_str(), num, den );
    sx_reach( steps == 2 ? "twice" : "law" );
}

extern "C" void sx_main()
{
    if( sx_choice( "inertial", 2 ) )
        claims<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>();
    else
        claims<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>();
}
