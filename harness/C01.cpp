// C01: validation accepts exactly the admissible settings.
//@ src: src/config_parser.cpp src/util/tomlplusplus.cpp
//@ bound: every model; every integer setting and every real setting in [-1000, 1000], one of them NaN or none; bot counts 0 to 2 with one list of length 0 to 3; every output setting
//@ assume: at most one setting is NaN at a time
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ run quick: 3
//@ reach: accepted rejected nan listshort listlong
#include "common.hpp"
#include "config_parser.hpp"
#include <cmath>
using namespace Seldon::Config;

static int nan_at, at;
static double setting( const char * name )
{
    return at++ == nan_at ? NAN : sx_real( name, -1000, 1000 );
}

template<typename S>
static bool activity( S & s )
{
    s.dt                = setting( "dt" );
    s.m                 = sx_irange( "m", INT32_MIN, INT32_MAX );
    s.eps               = setting( "eps" );
    s.gamma             = setting( "gamma" );
    s.alpha             = setting( "alpha" );
    s.reciprocity       = setting( "reciprocity" );
    s.reluctance_mean   = setting( "reluctance_mean" );
    s.reluctance_sigma  = setting( "reluctance_sigma" );
    s.reluctance_eps    = setting( "reluctance_eps" );
    s.covariance_factor = setting( "covariance_factor" );
    // these have no admissible range
    s.homophily       = sx_real( "homophily", -1000, 1000 );
    s.K               = sx_real( "K", -1000, 1000 );
    s.mean_activities = sx_choice( "mean_activities", 2 );
    s.mean_weights    = s.mean_activities;
    s.use_reluctances = s.mean_activities;
    bool ok           = s.dt > 0 && s.m >= 0 && s.eps > 0 && s.gamma > 2 && s.alpha >= 0 && s.reciprocity >= 0
              && s.reluctance_mean > 0 && s.reluctance_sigma > 0 && s.reluctance_eps > 0 && s.covariance_factor >= -1
              && s.covariance_factor <= 1;
    if( !ok )
        return false;
    s.n_bots   = sx_choice( "n_bots", 3 );
    int which  = sx_choice( "list", 4 );
    size_t len = sx_choice( "length", 4 );
    auto l     = [&]( int k ) { return k == which ? len : s.n_bots; };
    s.bot_m.resize( l( 0 ) );
    s.bot_activity.resize( l( 1 ) );
    s.bot_opinion.resize( l( 2 ) );
    s.bot_homophily.resize( l( 3 ) );
    sx_reach( len < s.n_bots ? "listshort" : "listlong" );
    return len >= s.n_bots;
}

extern "C" void sx_main()
{
    SimulationOptions o;
    o.rng_seed = 1;
    bool ok    = true;
    // the output settings are judged for every model in the same way
    int what = sx_choice( "output", 2 );
    if( what == 0 )
    {
        o.output_settings.start_output         = sx_range( "start_output", 0, UINT64_MAX );
        o.output_settings.start_numbering_from = sx_range( "start_numbering_from", 0, UINT64_MAX );
        o.output_settings.output_initial       = sx_choice( "output_initial", 2 );
        ok                                     = o.output_settings.start_output > 0;
        if( sx_choice( "agents", 2 ) )
        {
            size_t v                          = sx_range( "n_output_agents", 0, UINT64_MAX );
            o.output_settings.n_output_agents = v;
            ok                                = ok && v > 0;
        }
        if( sx_choice( "network", 2 ) )
        {
            size_t v                           = sx_range( "n_output_network", 0, UINT64_MAX );
            o.output_settings.n_output_network = v;
            ok                                 = ok && v > 0;
        }
    }
    o.network_settings.n_agents      = sx_range( "n_agents", 0, UINT64_MAX );
    o.network_settings.n_connections = sx_range( "n_connections", 0, UINT64_MAX );
    at = 0, nan_at = -1;
    switch( sx_param( 0 ) )
    {
        case 0: {
            DeGrootSettings s;
            o.model = Model::DeGroot, o.model_string = "DeGroot";
            if( what )
            {
                nan_at            = sx_choice( "nan", 2 ) - 1;
                s.convergence_tol = setting( "convergence" );
                ok                = s.convergence_tol >= 0;
            }
            o.model_settings = s;
            break;
        }
        case 1: {
            DeffuantSettings s;
            o.model = Model::DeffuantModel, o.model_string = "Deffuant";
            if( what )
            {
                nan_at                = sx_choice( "nan", 3 ) - 1;
                s.homophily_threshold = setting( "homophily_threshold" );
                s.mu                  = setting( "mu" );
                s.dim                 = sx_range( "dim", 0, UINT64_MAX );
                s.use_network         = sx_choice( "use_network", 2 );
                s.use_binary_vector   = sx_choice( "binary_vector", 2 );
                ok = s.homophily_threshold > 0 && s.mu >= 0 && s.mu <= 1 && s.dim > 0 && ( s.use_binary_vector || s.dim == 1 );
            }
            o.model_settings = s;
            break;
        }
        case 2: {
            ActivityDrivenSettings s;
            o.model = Model::ActivityDrivenModel, o.model_string = "ActivityDriven";
            if( what )
            {
                nan_at = sx_choice( "nan", 10 ) - 1;
                ok     = activity( s );
            }
            o.model_settings = s;
            break;
        }
        default: {
            ActivityDrivenInertialSettings s;
            o.model = Model::ActivityDrivenInertial, o.model_string = "ActivityDrivenInertial";
            if( what )
            {
                nan_at                 = sx_choice( "nan", 11 ) - 1;
                s.friction_coefficient = setting( "friction_coefficient" );
                ok                     = s.friction_coefficient >= 0;
                ok                     = activity( s ) && ok;
            }
            o.model_settings = s;
        }
    }
    bool thrown = false;
    try
    {
        validate_settings( o );
    }
    catch( const std::exception & )
    {
        thrown = true;
    }
    sx_assert( thrown == !ok, "exactly the inadmissible settings are rejected" );
    sx_reach( ok ? "accepted" : "rejected" );
    if( nan_at >= 0 )
        sx_reach( "nan" );
}
