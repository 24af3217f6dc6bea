// A07: whom an active agent contacts.
//@ bound: 3 agents of which one is active (4 agents: with concrete opinions), contact number 1 (4 agents: 2), every opinion in [-5, 5] in every order, two of them equal or not, every homophily in [-3, 3] and a few concrete ones, the active agent a bot with its own homophily or not, both models, all draws
//@ assume: uniform draws lie strictly between 0 and 1; pow and log are real functions
//@ assume: weighted sampling itself behaves as S02 and S06 say
//@ assume: the draws deciding who is active come before the ones deciding whom the active agent contacts
//@ run quick: 3
//@ run quick: 4
//@ reach: bot plain equal first last inertial
#include "act.hpp"
using namespace act;

template<typename ModelT, typename SettingsT, typename A>
static void claims()
{
    size_t n   = sx_param( 0 );
    size_t who = sx_choice( "who", n );
    bool bot   = sx_choice( "bot", 2 );
    int mode   = n == 4 ? 0 : sx_choice( "mode", 3 ); // 0: any homophily, 1: any opinions, 2: two equal opinions
    SettingsT settings;
    settings.m           = n == 4 ? 2 : 1;
    settings.reciprocity = 0;
    settings.alpha = 0, settings.K = 1;
    double h = mode == 1 ? std::array{ 0.5, 2.0, -1.0 }[sx_choice( "exponent", 3 )] : sx_real( "homophily", -3, 3 );
    settings.homophily = bot ? 0.75 : h;
    settings.n_bots    = bot ? who + 1 : 0;
    double x0[] = { 0.5, -0.125, 0.875, -2 };
    std::vector<double> x( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = mode == 1 ? sx_real( "opinion", -5, 5 ) : x0[i];
    if( mode == 2 )
        x[( who + 1 ) % n] = x[who];
    if( mode == 1 )
        for( size_t i = 0; i < n; i++ )
            if( i != who )
                sx_assume( x[i] > x[who] + 0.01 || x[i] < x[who] - 0.01 );
    for( size_t b = 0; b < settings.n_bots; b++ )
    {
        settings.bot_opinion.push_back( x[b] );
        settings.bot_activity.push_back( b == who );
        settings.bot_m.push_back( settings.m );
        settings.bot_homophily.push_back( b == who ? h : -0.5 );
    }
    auto net = fresh<A>( n, true );
    std::mt19937 gen( 5 );
    ModelT model( settings, net, gen );
    for( size_t i = 0; i < n; i++ )
    {
        net.agents[i].data.opinion  = x[i];
        net.agents[i].data.activity = i == who;
    }
    std::mt19937 before = gen;
    model.iteration();
    auto c = edges( net );
    auto weight = [&]( size_t j )
    {
        if( j == who )
            return 0.0;
        double d = x[who] > x[j] ? x[who] - x[j] : x[j] - x[who];
        if( d < 1e-10 )
            d = 1e-10;
        return std::pow( d, -h );
    };
    // the sample drawn with these weights from the draw after the agent's activation, or after that of all agents, on
    bool same = false;
    for( size_t skip = 0; skip < 2 && !same; skip++ )
    {
        std::mt19937 g = before;
        g.discard( skip ? n : who + 1 );
        std::vector<size_t> sample;
        Seldon::reservoir_sampling_A_ExpJ( settings.m, n, weight, sample, g );
        same = true;
        for( size_t j = 0; j < n; j++ )
        {
            int in = 0;
            for( auto s : sample )
                in += s == j;
            same = same && c[who][j] == in;
        }
    }
    sx_assert( same, "the contacts are sampled with the homophily weights" );
    sx_reach( bot ? "bot" : "plain" );
    if( mode == 2 )
        sx_reach( "equal" );
    sx_reach( who == 0 ? "first" : "last" );
}

extern "C" void sx_main()
{
    if( sx_choice( "inertial", 2 ) )
    {
        claims<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>();
        sx_reach( "inertial" );
    }
    else
        claims<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>();
}
