// C05: equal seeds and inputs give equal simulations.
//@ src:
//@ bound: every model with 2 agents (Deffuant vectors of 2 components also 3 agents, Deffuant also 3, the lattice 1; the activity-driven models with and without bots, reluctances and covariance), generated networks and networks and agents from files, every seed, every draw, first whole runs of one iteration with files, then hand-made iterations, taken alternately with those of other simulations in the same process
//@ assume: equal seeds give equal streams of draws (std::mt19937)
//@ outside: more agents and iterations; threads
//@ run quick: 0 2 2
//@ run quick: 1 2 2
//@ run quick: 1 3 0
//@ run quick: 2 2 2
//@ run quick: 2 3 0
//@ run quick: 3 2 0
//@ run quick: 4 2 1
//@ run quick: 5 2 0
//@ run quick: 6 2 1
//@ run quick: 7 1 2
//@ run thorough: 0 2 3
//@ run thorough: 1 2 3
//@ run thorough: 1 3 1
//@ run thorough: 2 2 3
//@ run thorough: 2 3 0
//@ run thorough: 3 2 1
//@ run thorough: 3 3 0
//@ run thorough: 4 2 1
//@ run thorough: 4 3 0
//@ run thorough: 5 2 1
//@ run thorough: 5 3 0
//@ run thorough: 6 2 1
//@ run thorough: 6 3 0
//@ run thorough: 7 1 4
//@ reach: features drawn files lattice model0 model1 model2 model3 model4 model5 model6
#include "sim.hpp"
#include <set>
using namespace sim;

static std::set<std::string> names( const std::string & dir )
{
    std::set<std::string> r;
    for( auto & e : std::filesystem::directory_iterator( dir ) )
        r.insert( e.path().filename().string() );
    return r;
}

extern "C" void sx_main()
{
    bool lattice = sx_param( 0 ) == Kinds;
    int kind     = lattice ? int( Deffuant ) : sx_param( 0 );
    bool files   = sx_choice( "files", 2 );
    auto o       = options( kind, 1 );
    if( auto s = std::get_if<Config::DeffuantSettings>( &o.model_settings ) )
    {
        s->dim         = 2;
        s->use_network = lattice;
    }
    auto features = [&]( auto & s )
    {
        s.use_reluctances = s.reluctance_mean = 1;
        s.covariance_factor = 0.5;
        s.m                 = 2;
        s.n_bots            = 1;
        s.bot_m             = { 1 };
        s.bot_activity      = { 0.5 };
        s.bot_opinion       = { -0.5 };
        s.bot_homophily     = { 0 };
    };
    bool more = kind >= Activity && sx_choice( "features", 2 );
    if( auto s = std::get_if<Config::ActivityDrivenSettings>( &o.model_settings ); s && more )
        features( *s );
    if( auto s = std::get_if<Config::ActivityDrivenInertialSettings>( &o.model_settings ); s && more )
        features( *s );
    size_t n                         = sx_param( 1 );
    o.rng_seed                       = sx_irange( "seed", INT32_MIN, INT32_MAX );
    o.network_settings.n_agents      = n;
    o.network_settings.n_connections = n - 1;
    o.output_settings.n_output_agents = o.output_settings.n_output_network = 1;
    auto other     = options( kind, 1, 1 );
    other.rng_seed = 77;
    other.network_settings.n_agents      = 1;
    other.network_settings.n_connections = 0;
    std::optional<std::string> netFile, agentFile;
    if( files )
    {
        hx::spit( "net.txt", n == 1 ? "0, 0\n" :
                             n == 2 ? "0, 1, 1, 0.5\n1, 2, 0, 1, 0.25, 0.75\n" :
                                      "0, 1, 2, 0.5\n1, 2, 0, 1, 0.25, 0.75\n2, 0\n" );
        netFile = "net.txt";
        sx_reach( "files" );
    }
    else
        sx_reach( "drawn" );
    withAgent( kind, [&]( auto agent ) {
        using S = Simulation<decltype( agent )>;
        if( files )
        {
            // any values, as another network would write them
            Network<decltype( agent )> some( n );
            for( size_t i = 0; i < n; i++ )
            {
                if constexpr( std::is_same_v<decltype( agent ), DiscreteVectorAgent> )
                    some.agents[i].data.opinion = { 1, int( i ) };
                else
                    some.agents[i].data.opinion = i == 0 ? sx_real( "x", -1, 1 ) : 0.25;
                if constexpr( requires { agent.data.activity; } )
                    some.agents[i].data.activity = 0.5;
            }
            agents_to_file( some, "agents.txt" );
            agentFile = "agents.txt";
        }
        S a( o, netFile, agentFile );
        S between( other, std::nullopt, std::nullopt );
        S b( o, netFile, agentFile );
        auto same = [&]() {
            sameEdges( a.network, b.network );
            sameAgents( a.network.agents, b.network.agents );
        };
        same();
        for( auto d : { "a", "b", "c" } )
            std::filesystem::create_directory( d );
        a.run( "a" );
        between.run( "c" );
        b.run( "b" );
        same();
        auto fa = names( "a" );
        sx_assert( fa == names( "b" ), "the same files" );
        sx_assert( fa.size() == 4, "two kinds of files before and after the iteration" );
        for( auto & f : fa )
            sx_assert( hx::slurp( "a/" + f ) == hx::slurp( "b/" + f ), "the same content" );
        for( int step = 0; step < sx_param( 2 ); step++ )
        {
            a.model->iteration();
            between.model->iteration();
            b.model->iteration();
            same();
        }
    } );
    if( more )
        sx_reach( "features" );
    if( lattice )
        sx_reach( "lattice" );
    sx_reach( hx::nm( "model", kind ).c_str() );
}
