// Setting up whole simulations of every model.
#pragma once
#include "act.hpp"
#include "io.hpp"
#include "simulation.hpp"
#include <filesystem>
#include "src/models/DeGroot.cpp"
#include "src/models/DeffuantModel.cpp"
#include "src/models/DeffuantModelVector.cpp"

namespace sim
{
using namespace Seldon;
enum Kind
{
    DeGroot,
    Deffuant,
    Vector,
    Activity,
    MeanActivity,
    Inertial,
    MeanInertial,
    Kinds
};

// with bots, the agents of the activity-driven models are n bots with given opinions, one of them active
inline Config::SimulationOptions options( int kind, std::optional<int> limit, size_t bots = 0 )
{
    Config::SimulationOptions o;
    o.rng_seed         = 12;
    auto activityDriven = [&]( auto s )
    {
        s.max_iterations  = limit;
        s.dt              = 0.25;
        s.m               = 1;
        s.mean_weights    = kind == MeanActivity || kind == MeanInertial;
        s.mean_activities = s.mean_weights;
        s.homophily       = 0;
        s.reciprocity     = 0.5;
        s.n_bots          = bots;
        for( size_t i = 0; i < bots; i++ )
        {
            s.bot_m.push_back( 1 );
            s.bot_activity.push_back( i % 2 ? 0 : 1 );
            s.bot_opinion.push_back( 0.5 - 0.75 * i );
            s.bot_homophily.push_back( 0 );
        }
        o.model_settings  = s;
    };
    switch( kind )
    {
        case DeGroot: {
            Config::DeGrootSettings s;
            s.max_iterations  = limit;
            s.convergence_tol = 0; // the iterations alone decide
            o.model           = Config::Model::DeGroot;
            o.model_settings  = s;
            break;
        }
        case Deffuant:
        case Vector: {
            Config::DeffuantSettings s;
            s.max_iterations    = limit;
            s.use_binary_vector = kind == Vector;
            s.dim               = 1;
            o.model             = Config::Model::DeffuantModel;
            o.model_settings    = s;
            break;
        }
        case Activity:
        case MeanActivity:
            o.model = Config::Model::ActivityDrivenModel;
            activityDriven( Config::ActivityDrivenSettings{} );
            break;
        default:
            o.model = Config::Model::ActivityDrivenInertial;
            activityDriven( Config::ActivityDrivenInertialSettings{} );
    }
    return o;
}

// calls f with an agent of the type the model works on
template<typename F>
void withAgent( int kind, F f )
{
    switch( kind )
    {
        case DeGroot:
        case Deffuant: f( SimpleAgent{} ); break;
        case Vector: f( DiscreteVectorAgent{} ); break;
        case Activity:
        case MeanActivity: f( ActivityAgent{} ); break;
        default: f( InertialAgent{} );
    }
}

// the data of an agent as reals and integers
inline void fields( const SimpleAgent & a, std::vector<double> & r, std::vector<int> & )
{
    r.push_back( a.data.opinion );
}
inline void fields( const DiscreteVectorAgent & a, std::vector<double> &, std::vector<int> & i )
{
    for( int x : a.data.opinion )
        i.push_back( x );
}
inline void fields( const ActivityAgent & a, std::vector<double> & r, std::vector<int> & )
{
    r.push_back( a.data.opinion ), r.push_back( a.data.activity ), r.push_back( a.data.reluctance );
}
inline void fields( const InertialAgent & a, std::vector<double> & r, std::vector<int> & )
{
    r.push_back( a.data.opinion ), r.push_back( a.data.activity ), r.push_back( a.data.reluctance );
    r.push_back( a.data.velocity );
}

template<typename A>
void sameAgents( const std::vector<A> & a, const std::vector<A> & b )
{
    sx_assert( a.size() == b.size(), "as many agents" );
    for( size_t k = 0; k < a.size(); k++ )
    {
        std::vector<double> r, s;
        std::vector<int> i, j;
        fields( a[k], r, i );
        fields( b[k], s, j );
        sx_assert( r.size() == s.size() && i.size() == j.size(), "as many components" );
        for( size_t x = 0; x < r.size(); x++ )
            sx_same( r[x], s[x], "the agents' values" );
        for( size_t x = 0; x < i.size(); x++ )
            sx_assert( i[x] == j[x], "the agents' components" );
    }
}

template<typename A>
void sameEdges( const Network<A> & a, const Network<A> & b )
{
    sx_assert( a.n_agents() == b.n_agents(), "as many rows" );
    sx_assert( a.direction() == b.direction(), "the direction of the edges" );
    for( size_t k = 0; k < a.n_agents(); k++ )
    {
        auto n = a.get_neighbours( k ), m = b.get_neighbours( k );
        auto v = a.get_weights( k ), w = b.get_weights( k );
        sx_assert( n.size() == m.size() && v.size() == w.size(), "as many edges" );
        for( size_t e = 0; e < n.size(); e++ )
            sx_assert( n[e] == m[e], "the neighbours" );
        for( size_t e = 0; e < v.size(); e++ )
            sx_same( v[e], w[e], "the weights" );
    }
}
} // namespace sim
