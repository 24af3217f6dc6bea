// A03: bots.
//@ bound: 1 to 3 agents, 0 to 4 bots, 5 agents with up to 6 bots with mean-field weights, activity-driven and inertial model, probabilistic and mean-field weights, every real bot opinion, activity and homophily; contact numbers 0 to 2 for bots and 1 for others; two steps
//@ assume: uniform draws lie strictly between 0 and 1
//@ outside: other networks of more than 3 agents
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ reach: rejected none some own global samehomophily initial
#include "act.hpp"
using namespace act;

static double inits[] = { 0.75, -0.5, 0.125 };

// every agent a bot or not: opinions, activities, rejection
template<typename ModelT, typename SettingsT, typename A>
static void opinions()
{
    size_t n = std::array{ 1, 2, 3, 5 }[sx_choice( "agents", 4 )], bots = sx_choice( "bots", n == 5 ? 7 : 5 );
    bool mean = n > 3 || ( n > 1 && sx_choice( "mean", 2 ) );
    SettingsT settings;
    settings.m            = 1;
    settings.mean_weights = mean;
    settings.homophily    = 0;
    settings.n_bots       = bots;
    std::vector<double> x, a;
    // lists may be longer than the number of bots
    for( size_t b = 0; b < ( n > 3 ? 7 : 4 ); b++ )
    {
        x.push_back( mean ? 0.3 * b - 0.7 : sx_real( "bot opinion", -5, 5 ) );
        a.push_back( b % 2 );
        settings.bot_opinion.push_back( x[b] );
        settings.bot_activity.push_back( a[b] );
        settings.bot_m.push_back( 1 );
        settings.bot_homophily.push_back( 0 );
    }
    if( !mean ) // an order of the opinions, contact weights do not depend on it here
        for( size_t b = 0; b < 3; b++ )
            sx_assume( x[b] + 0.125 < x[b + 1] );
    auto net = fresh<A>( n, true );
    std::mt19937 gen( 5 );
    bool thrown = false;
    try
    {
        ModelT model( settings, net, gen );
        sx_assert( bots <= n, "more bots than agents are rejected" );
        auto check = [&]()
        {
            sx_assert( net.n_agents() == n, "number of agents" );
            for( size_t i = 0; i < n && i < bots; i++ )
            {
                sx_same( net.agents[i].data.opinion, x[i], "bots have their configured opinion" );
                sx_same( net.agents[i].data.activity, a[i], "bots have their configured activity" );
            }
        };
        check();
        for( size_t i = bots; i < n; i++ )
        {
            net.agents[i].data.opinion  = mean ? 1.5 + i : 10.0 + i;
            net.agents[i].data.activity = 1;
        }
        for( int s = 0; s < ( n < 3 ? 2 : 1 ); s++ )
        {
            model.iteration();
            check();
        }
        sx_reach( bots ? "some" : "none" );
    }
    catch( const std::exception & )
    {
        thrown = true;
        sx_reach( "rejected" );
    }
    sx_assert( thrown == ( bots > n ), "exactly more bots than agents are rejected" );
}

// contact numbers and activities: only one agent can be active at a time, bot or not
template<typename ModelT, typename SettingsT, typename A>
static void contacts()
{
    size_t n = 3, bots = sx_choice( "bots", 4 ), who = sx_choice( "who", 3 );
    SettingsT settings;
    settings.m           = 1;
    settings.homophily   = 0;
    settings.reciprocity = 0;
    settings.alpha = 0, settings.K = 1;
    settings.n_bots = bots;
    int ms[3];
    double act = sx_real( "activity", 0, 1 );
    for( size_t b = 0; b < 3; b++ )
    {
        ms[b] = sx_choice( "bot m", b == who ? 3 : 1 );
        if( b != who )
            ms[b] = 2;
        settings.bot_opinion.push_back( inits[b] );
        settings.bot_activity.push_back( b == who ? act : 0 );
        settings.bot_m.push_back( ms[b] );
        settings.bot_homophily.push_back( 0 );
    }
    auto net = fresh<A>( n, true );
    std::mt19937 gen( 5 );
    ModelT model( settings, net, gen );
    for( size_t i = bots; i < n; i++ )
    {
        net.agents[i].data.opinion  = inits[i];
        net.agents[i].data.activity = i == who ? act : 0;
    }
    uint64_t from = drawn( gen );
    model.iteration();
    uint64_t to = drawn( gen );
    auto c      = edges( net );
    int expect  = who < bots ? ms[who] : 1;
    for( size_t i = 0; i < n; i++ )
    {
        int out = 0;
        for( size_t j = 0; j < n; j++ )
            out += c[i][j];
        if( i != who || expect == 0 )
        {
            sx_assert( out == 0, "inactive agents contact nobody" );
            continue;
        }
        sx_assert( out == 0 || out == expect, "active agents contact their own number of agents" );
        SxAny any;
        for( uint64_t t = from; t < to; t++ )
        {
            double u = sx_draw_u01( seedOf( gen ), t );
            if( out )
                any.lt( u, act );
            else
                any.le( act, u );
        }
        any.claim( "active exactly if the draw is below the own activity" );
        if( out )
            sx_reach( who < bots ? "own" : "global" );
    }
}

// a bot contacts others with its own homophily, like an agent of a model with that homophily for all
template<typename ModelT, typename SettingsT, typename A>
static std::vector<std::vector<int>> contactsWith( size_t bots, double global, double own, size_t who )
{
    SettingsT settings;
    settings.m           = 1;
    settings.homophily   = global;
    settings.reciprocity = 0;
    settings.alpha = 0, settings.K = 1;
    settings.n_bots = bots;
    for( size_t b = 0; b < 3; b++ ) // the lists may be longer than the number of bots
    {
        settings.bot_opinion.push_back( inits[b] );
        settings.bot_activity.push_back( b == who );
        settings.bot_m.push_back( 1 );
        settings.bot_homophily.push_back( b >= bots ? -5.0 : b == who ? own : 7.0 );
    }
    auto net = fresh<A>( 3, false );
    std::mt19937 gen( 5 );
    ModelT model( settings, net, gen );
    for( size_t i = bots; i < 3; i++ )
    {
        net.agents[i].data.opinion  = inits[i];
        net.agents[i].data.activity = i == who;
    }
    model.iteration();
    return edges( net );
}
template<typename ModelT, typename SettingsT, typename A>
static void homophily()
{
    size_t bots = 1 + sx_choice( "bots", 2 ), who = sx_choice( "who", 3 );
    double h = sx_real( "homophily", -3, 3 ), other = sx_real( "other homophily", -3, 3 );
    bool bot = who < bots;
    auto c   = contactsWith<ModelT, SettingsT, A>( bots, bot ? other : h, bot ? h : other, who );
    auto d   = contactsWith<ModelT, SettingsT, A>( 0, h, other, who );
    for( size_t i = 0; i < 3; i++ )
        for( size_t j = 0; j < 3; j++ )
            sx_assert( c[i][j] == d[i][j], "each agent contacts others with its own homophily" );
    sx_reach( "samehomophily" );
}

// everybody else is initialised as usual
template<typename ModelT, typename SettingsT, typename A>
static void others()
{
    size_t bots = 1 + sx_choice( "bots", 2 );
    SettingsT settings;
    settings.n_bots = bots;
    for( size_t b = 0; b < 3; b++ )
    {
        settings.bot_opinion.push_back( 3 );
        settings.bot_activity.push_back( 2 );
        settings.bot_m.push_back( 1 );
        settings.bot_homophily.push_back( 0 );
    }
    auto net = fresh<A>( 3, false );
    std::mt19937 gen( 5 );
    ModelT model( settings, net, gen );
    for( size_t i = bots; i < 3; i++ )
    {
        sx_le( -1, net.agents[i].data.opinion, 1e-9, "opinions in range" );
        sx_le( net.agents[i].data.opinion, 1, 1e-9, "opinions in range" );
        sx_le( net.agents[i].data.activity, 1, 1e-9, "others have no bot activity" );
    }
    sx_reach( "initial" );
}

template<typename ModelT, typename SettingsT, typename A>
static void all()
{
    switch( sx_param( 0 ) )
    {
        case 0: opinions<ModelT, SettingsT, A>(); break;
        case 1: contacts<ModelT, SettingsT, A>(); break;
        default:
            if( sx_choice( "what", 2 ) )
                homophily<ModelT, SettingsT, A>();
            else
                others<ModelT, SettingsT, A>();
    }
}

extern "C" void sx_main()
{
    if( sx_choice( "inertial", 2 ) )
        all<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>();
    else
        all<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>();
}
