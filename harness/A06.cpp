// A06: initial agents of the activity-driven and inertial models.
//@ bound: 1, 2, 3 and 5 agents, both models, with and without mean activities, reluctances and mean-field weights; every minimum activity in [0.01, 0.9], exponent in [2.1, 5], reluctance mean, width and minimum, and covariance in [-0.999, 0.999]; all draws
//@ assume: pow, erf and the inverse error function are real functions (S03 has their own claims)
//@ assume: an agent's draws are its opinion, then the correlated pair
//@ outside: other numbers of agents
//@ run quick: 0
//@ reach: mean drawn reluctant eager inertial
#include "act.hpp"
using namespace act;

template<typename ModelT, typename SettingsT, typename A>
static void claims()
{
    size_t n = std::array{ 1, 2, 3, 5 }[sx_choice( "agents", 4 )];
    SettingsT settings;
    settings.eps               = sx_real( "eps", 0.01, 0.9 );
    settings.gamma             = sx_real( "gamma", 2.1, 5 );
    settings.reluctance_mean   = sx_real( "reluctance mean", 0.1, 5 );
    settings.reluctance_sigma  = sx_real( "reluctance sigma", 0.1, 5 );
    settings.reluctance_eps    = sx_real( "reluctance eps", 0.01, 1 );
    settings.covariance_factor = sx_real( "covariance", -0.999, 0.999 );
    settings.mean_activities   = sx_choice( "mean activities", 2 );
    settings.use_reluctances   = sx_choice( "reluctances", 2 );
    settings.mean_weights      = sx_choice( "mean weights", 2 );
    auto net = fresh<A>( n, true );
    std::mt19937 gen( 5 ), same( 5 );
    ModelT model( settings, net, gen );
    sx_assert( net.n_agents() == n && net.agents.size() == n, "the number of agents does not change" );
    power_law_distribution<> activity( settings.eps, settings.gamma );
    truncated_normal_distribution<> reluctance( settings.reluctance_mean, settings.reluctance_sigma,
                                                settings.reluctance_eps );
    bivariate_gaussian_copula copula( settings.covariance_factor, activity, reluctance );
    std::uniform_real_distribution<> u( -1, 1 );
    for( size_t i = 0; i < n; i++ )
    {
        auto & d = net.agents[i].data;
        sx_le( -1, d.opinion, 1e-12, "opinions are not below -1" );
        sx_le( d.opinion, 1, 1e-12, "opinions are not above 1" );
        sx_close( d.opinion, u( same ), 1e-9, "opinions are uniform draws from [-1,1]" );
        auto r = copula( same );
        if( settings.mean_activities )
        {
            sx_close( d.activity, activity.mean(), 1e-9, "mean activity" );
            sx_reach( "mean" );
        }
        else
        {
            sx_le( settings.eps, d.activity, 1e-9, "activities are not below their minimum" );
            sx_le( d.activity, 1, 1e-9, "activities are not above one" );
            sx_close( d.activity, r[0], 1e-6, "activities follow the configured power law" );
            sx_reach( "drawn" );
        }
        if( settings.use_reluctances )
        {
            sx_close( d.reluctance, r[1], 1e-6, "reluctances follow the configured truncated normal distribution" );
            sx_reach( "reluctant" );
        }
        else
        {
            sx_same( d.reluctance, 1.0, "reluctances are one" );
            sx_reach( "eager" );
        }
    }
}

extern "C" void sx_main()
{
    if( sx_choice( "inertial", 2 ) )
    {
        claims<InertialModel, Config::ActivityDrivenInertialSettings, InertialAgent>();
        sx_reach( "inertial" );
    }
    else
        claims<ActivityDrivenModel, Config::ActivityDrivenSettings, ActivityAgent>();
}
