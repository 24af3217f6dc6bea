// C06: network and agent files define where a simulation starts.
//@ src:
//@ bound: every model; network files of 1 to 3 agents with any pattern of the neighbour lists listed in the harness and every weight; agent files of 0 to 4 rows with arbitrary values (opinion vectors of 1 to 3 components); files named on the command line, in the configuration or both; without files 1 to 3 agents with up to 2 connections each and every draw
//@ outside: larger files
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ reach: cli toml both generated agents mismatch step model0 model1 model2 model3 model4 model5 model6
#include "sim.hpp"
using namespace sim;

static void fill( SimpleAgent & a, const std::string & p )
{
    a.data.opinion = sx_anyreal( ( p + "opinion" ).c_str() );
}
static void fill( DiscreteVectorAgent & a, const std::string & p )
{
    int dim = 1 + sx_choice( ( p + "dim" ).c_str(), 3 );
    for( int i = 0; i < dim; i++ )
        a.data.opinion.push_back( sx_irange( ( p + "component" ).c_str(), INT32_MIN, INT32_MAX ) );
}
static void fill( ActivityAgent & a, const std::string & p )
{
    a.data.opinion    = sx_anyreal( ( p + "opinion" ).c_str() );
    a.data.activity   = sx_anyreal( ( p + "activity" ).c_str() );
    a.data.reluctance = sx_anyreal( ( p + "reluctance" ).c_str() );
}
static void fill( InertialAgent & a, const std::string & p )
{
    a.data.opinion    = sx_anyreal( ( p + "opinion" ).c_str() );
    a.data.activity   = sx_anyreal( ( p + "activity" ).c_str() );
    a.data.reluctance = sx_anyreal( ( p + "reluctance" ).c_str() );
    a.data.velocity   = sx_anyreal( ( p + "velocity" ).c_str() );
}

// a network of n agents written to a file
template<typename A>
static Network<A> writeNetwork( const std::string & file, size_t n, int shift )
{
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    std::string text = "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n";
    for( size_t i = 0; i < n; i++ )
    {
        for( size_t j = 0; j < n; j++ )
            if( ( 2 * i + j + shift ) % 3 != 0 )
            {
                nb[i].push_back( ( n - 1 ) - j );
                w[i].push_back( sx_real( ( file + "w" ).c_str(), -2, 2 ) );
            }
        text += fmt::format( "{:>5}, {:>5}", i, nb[i].size() );
        for( auto j : nb[i] )
            text += fmt::format( ", {:>5}", j );
        for( auto x : w[i] )
            text += fmt::format( ", {:>25}", x );
        text += "\n";
    }
    hx::spit( file, text );
    return Network<A>( std::move( nb ), std::move( w ), Network<A>::EdgeDirection::Incoming );
}

template<typename A>
static std::vector<A> writeAgents( const std::string & file, size_t n )
{
    std::vector<A> as( n );
    std::string text = "# idx_agent, values\n";
    for( size_t i = 0; i < n; i++ )
    {
        fill( as[i], hx::nm( "a", i ) );
        std::vector<double> r;
        std::vector<int> k;
        fields( as[i], r, k );
        text += std::to_string( i );
        if constexpr( std::is_same_v<A, InertialAgent> )
            r = { r[0], r[3], r[1], r[2] }; // the velocity is the second column
        for( double x : r )
            text += fmt::format( ", {}", x );
        for( int x : k )
            text += fmt::format( ", {}", x );
        text += "\n";
    }
    hx::spit( file, text );
    return as;
}

template<typename A>
static void claims( int kind, int part )
{
    bool mean = kind == MeanActivity || kind == MeanInertial;
    auto o    = options( kind, 3 );
    // how the network is given: generated, command line, configuration, both
    int how = part == 0 ? 0 : 1 + sx_choice( "how", 3 );
    std::optional<std::string> cliNetwork, cliAgents;
    size_t n                    = 1 + sx_choice( "agents", 3 );
    o.network_settings.n_agents = how == 0 ? n : 5; // does not matter with a file
    size_t connections          = how == 0 ? sx_choice( "connections", n ) : 1;
    o.network_settings.n_connections = connections;
    Network<A> expected( 0 );
    if( how == 1 || how == 3 )
    {
        expected   = writeNetwork<A>( "cli.txt", n, sx_choice( "pattern", 3 ) );
        cliNetwork = "cli.txt";
    }
    if( how == 2 )
        expected = writeNetwork<A>( "toml.txt", n, sx_choice( "pattern", 3 ) );
    if( how == 3 )
        writeNetwork<A>( "toml.txt", 4, 0 );
    if( how >= 2 )
        o.network_settings.file = "toml.txt";
    std::vector<A> agents;
    size_t rows = n;
    if( sx_choice( "agent file", 2 ) )
    {
        if( part == 2 )
            rows = sx_choice( "rows", n + 2 );
        agents    = writeAgents<A>( "agents.txt", rows );
        cliAgents = "agents.txt";
    }
    std::unique_ptr<Simulation<A>> s;
    try
    {
        s = std::make_unique<Simulation<A>>( o, cliNetwork, cliAgents );
    }
    catch( const std::runtime_error & )
    {
        sx_assert( cliAgents && rows != n, "only files that do not fit are rejected" );
        sx_reach( "mismatch" );
        return;
    }
    sx_assert( rows == n, "files that do not fit are rejected" );
    auto & net = s->network;
    sx_assert( net.n_agents() == n && net.agents.size() == n, "the number of agents" );
    if( mean )
        sx_assert( net.n_edges() == n * n, "the mean-field network is fully connected" );
    else if( how == 0 )
    {
        sx_assert( net.direction() == Network<A>::EdgeDirection::Incoming, "incoming edges" );
        for( size_t i = 0; i < n; i++ )
            sx_assert( net.get_neighbours( i ).size() == connections + 1, "the configured connections and oneself" );
        sx_reach( "generated" );
    }
    else
    {
        sameEdges( net, expected );
        sx_reach( how == 1 ? "cli" : how == 2 ? "toml" : "both" );
    }
    if( cliAgents )
    {
        sameAgents( net.agents, agents );
        sx_reach( "agents" );
    }
    // the model works on this network
    if constexpr( std::is_same_v<A, SimpleAgent> )
        if( kind == DeGroot && n == 2 && cliAgents && how && part == 1 )
        {
            auto W = expected;
            s->model->iteration();
            for( size_t i = 0; i < n; i++ )
            {
                double x = 0;
                for( size_t e = 0; e < W.get_neighbours( i ).size(); e++ )
                    x += W.get_weights( i )[e] * agents[W.get_neighbours( i )[e]].data.opinion;
                sx_close( s->network.agents[i].data.opinion, x, 1e-9, "the first step starts from the files" );
            }
            sx_reach( "step" );
        }
    sx_reach( hx::nm( "model", kind ).c_str() );
}

extern "C" void sx_main()
{
    int kind = sx_choice( "model", Kinds );
    withAgent( kind, [&]( auto a ) { claims<decltype( a )>( kind, sx_param( 0 ) ); } );
}
