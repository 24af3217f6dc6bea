// A01: contact networks of the activity-driven and inertial models.
//@ bound: 2 or 3 agents, contact numbers from 0 to 4, every activity and reciprocity in [0, 1], homophily 0 or any in [0, 3], concrete distinct opinions, all draws; two steps for 2 agents, and two steps with different active agents for 2 and 3
//@ assume: uniform draws lie strictly between 0 and 1; the weights of other agents are positive
//@ outside: more than 3 agents
//@ run quick: 2 0
//@ run quick: 3 0
//@ run quick: 3 1
//@ run quick: 3 2
//@ run quick: 2 3
//@ run quick: 3 3
//@ run thorough: 2 0
//@ run thorough: 3 0
//@ run thorough: 3 1
//@ run thorough: 3 2
//@ run thorough: 2 3
//@ run thorough: 3 3
//@ run thorough: 4 0
//@ must: pattern2:00 pattern2:01 pattern2:10 pattern2:11 pattern3:000 pattern3:001 pattern3:010 pattern3:100 pattern3:110 pattern3:101 pattern3:011 pattern3:111
//@ must: contact0-1 contact0-2 contact1-0 contact1-2 contact2-0 contact2-1 some none
//@ reach: capped mutual
#include "act.hpp"
using namespace act;

struct Setup
{
    size_t n;
    int m, steps;
    double homophily, reciprocity;
    std::vector<double> activity;
    std::vector<double> before{}; // activities in the first of two steps, if different
};

template<typename ModelT, typename SettingsT, typename A>
static Network<A> run( const Setup & s, std::mt19937 & gen, uint64_t & from )
{
    auto net = fresh<A>( s.n, true );
    SettingsT settings;
    settings.m = s.m, settings.homophily = s.homophily, settings.reciprocity = s.reciprocity;
    settings.alpha = 0, settings.K = 1, settings.max_iterations = 5;
    ModelT model( settings, net, gen );
    for( size_t i = 0; i < s.n; i++ )
    {
        net.agents[i].data = {};
        net.agents[i].data.activity = s.activity[i];
    }
    double x[] = { 0, 0.5, -0.25, 0.875 };
    for( int k = 0; k < s.steps; k++ )
    {
        for( size_t i = 0; i < s.n; i++ )
            net.agents[i].data.opinion = x[i];
        if( !s.before.empty() )
        {
            for( size_t i = 0; i < s.n; i++ )
                net.agents[i].data.activity = k == 0 ? s.before[i] : s.activity[i];
            // what the second step draws has to be the same whatever the first one did
            if( k == 1 )
                gen.seed( 7 );
        }
        from = drawn( gen );
        model.iteration();
    }
    sx_assert( net.n_agents() == s.n, "number of agents" );
    sx_assert( net.direction() == Network<A>::EdgeDirection::Incoming, "incoming edges" );
    for( size_t j = 0; j < s.n; j++ )
    {
        auto w = net.get_weights( j );
        sx_assert( w.size() == net.get_neighbours( j ).size(), "as many weights as neighbours" );
        for( double e : w )
            sx_same( e, 1.0, "all edges have weight one" );
    }
    auto c = edges( net );
    for( size_t i = 0; i < s.n; i++ )
        for( size_t j = 0; j < s.n; j++ )
            sx_assert( c[i][j] <= ( i == j ? 0 : 1 ), "no duplicate edges and nobody contacts itself" );
    return net;
}

template<typename ModelT, typename SettingsT, typename A>
static void claims()
{
    Setup s;
    s.n      = sx_param( 0 );
    int what = sx_param( 1 );
    s.steps  = s.n == 2 && sx_choice( "two steps", 2 ) ? 2 : 1;
    if( what == 0 )
        s.m = sx_choice( "m", s.n == 4 ? 3 : 5 );
    else
        s.m = s.n == 2 || what == 2 ? 1 : 2;
    s.homophily   = what != 3 && sx_choice( "homophilic", 2 ) ? sx_real( "homophily", 0, 3 ) : 0.0;
    s.reciprocity = 0;
    if( what == 3 ) // two steps with different active agents
    {
        s.steps     = 2;
        s.homophily = 0;
        s.m         = 1;
        size_t only = sx_choice( "active", s.n );
        for( size_t i = 0; i < s.n; i++ )
        {
            s.activity.push_back( i == only );
            s.before.push_back( s.n > 2 ? i != only : sx_choice( "active before", 2 ) );
        }
    }
    for( size_t i = 0; i < s.n && what != 3; i++ )
        s.activity.push_back( what == 0 ? sx_real( "activity", 0, 1 ) : what == 1 && i == 2 ? 0.0 : 1.0 );
    std::mt19937 gen( 5 );
    uint64_t from = 0;
    // without reciprocity the edges are exactly the contacts
    auto net    = run<ModelT, SettingsT, A>( s, gen, from );
    auto c      = edges( net );
    uint64_t to = drawn( gen );
    int expect  = s.m < s.n - 1 ? s.m : s.n - 1;
    if( what == 0 )
    {
        std::string pattern = hx::nm( "pattern", s.n ) + ":";
        for( size_t i = 0; i < s.n; i++ )
        {
            int out = 0;
            for( size_t j = 0; j < s.n; j++ )
                out += c[i][j];
            sx_assert( out == 0 || out == expect, "an active agent contacts exactly the configured number of agents" );
            bool active = out > 0;
            SxAny any;
            pattern += active ? "1" : "0";
            if( expect == 0 )
                continue;
            for( uint64_t t = from; t < to; t++ )
            {
                double u = sx_draw_u01( seedOf( gen ), t );
                if( active )
                    any.lt( u, s.activity[i] );
                else
                    any.le( s.activity[i], u );
            }
            any.claim( "exactly the agents whose draw is below their activity are active" );
            if( s.m == 1 )
                for( size_t j = 0; j < s.n; j++ )
                    if( c[i][j] )
                        sx_reach( ( hx::nm( "contact", i ) + "-" + std::to_string( j ) ).c_str() );
        }
        sx_reach( pattern.c_str() );
        if( s.m >= s.n )
            sx_reach( "capped" );
        return;
    }
    // the same draws with reciprocity
    Setup t       = s;
    t.reciprocity = sx_real( "reciprocity", 0, 1 );
    std::mt19937 gen2( 5 );
    auto net2   = run<ModelT, SettingsT, A>( t, gen2, from );
    auto f      = edges( net2 );
    uint64_t to2 = drawn( gen2 );
    bool some = false, none = false;
    for( size_t i = 0; i < s.n; i++ )
        for( size_t j = 0; j < s.n; j++ )
        {
            if( i == j )
                continue;
            if( c[i][j] )
            {
                sx_assert( f[i][j] == 1, "contacts stay" );
                if( c[j][i] )
                {
                    sx_reach( "mutual" );
                    continue;
                }
                SxAny any;
                for( uint64_t k = from; k < to2; k++ )
                {
                    double u = sx_draw_u01( seedOf( gen2 ), k );
                    if( f[j][i] )
                        any.lt( u, t.reciprocity );
                    else
                        any.le( t.reciprocity, u );
                }
                any.claim( "reciprocated exactly if the draw is below the reciprocity" );
                ( f[j][i] ? some : none ) = true;
            }
            else if( f[i][j] )
                sx_assert( c[j][i] == 1, "only contacts are reciprocated" );
        }
    if( some && !none )
        sx_reach( "some" );
    if( some && none )
        sx_reach( "none" );
}

extern "C" void sx_main()
{
    if( sx_choice( "inertial", 2 ) )
        claims<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>();
    else
        claims<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>();
}
