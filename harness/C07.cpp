// C07: the program does what its command line and configuration file say.
//@ src: src/config_parser.cpp src/util/tomlplusplus.cpp
//@ bound: every model, every combination of the options for output directory, agent file and network file in short and long form, before or after the configuration file; 2 agents with every opinion, activity, reluctance and velocity, 2 edges per agent with every weight, every draw of a run of one iteration (Deffuant models with an agent file: with every number of agents from 1 to 2); existing, missing and nested output directories; five kinds of wrong usage, seven kinds of unusable configurations and missing input files with every combination of the other files
//@ assume: Simulation<> itself behaves as C03 to C06 say
//@ outside: longer runs (C03, C04); the place of the default output directory when the configuration file lies in another directory, for which the program's help and its behaviour differ
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ reach: usage broken default nested existing file model0 model1 model2 model3 model4 model5 model6
#include "sim.hpp"
#define main seldon_main
#include "src/main.cpp"
#undef main
using namespace sim;
namespace fsys = std::filesystem;

static int start( std::vector<std::string> args )
{
    args.insert( args.begin(), "seldon" );
    std::vector<char *> v;
    for( auto & a : args )
        v.push_back( a.data() );
    v.push_back( nullptr );
    return seldon_main( args.size(), v.data() );
}

static std::string config( int kind, size_t n )
{
    bool mean     = kind == MeanActivity || kind == MeanInertial;
    std::string m = kind == DeGroot                      ? "DeGroot"
                    : kind == Deffuant || kind == Vector ? "Deffuant"
                    : kind <= MeanActivity               ? "ActivityDriven"
                                                         : "ActivityDrivenInertial";
    std::string t = "[simulation]\nmodel = \"" + m + "\"\nrng_seed = 7\n[io]\nn_output_agents = 1\nn_output_network = 1\n"
                    "[model]\nmax_iterations = 1\n";
    t += "[network]\nnumber_of_agents = " + std::to_string( n ) + "\nconnections_per_agent = 1\n[" + m + "]\n";
    if( kind == DeGroot )
        t += "convergence = 1e-3\n";
    else if( kind == Deffuant || kind == Vector )
        t += kind == Vector ? "binary_vector = true\ndim = 2\n" : "homophily_threshold = 0.25\n";
    else
    {
        t += "dt = 0.25\nm = 1\nhomophily = 0\nreciprocity = 0.5\nn_bots = " + std::to_string( n ) + "\nbot_m = [1, 1]\n"
             "bot_homophily = [0, 0]\nbot_activity = [1, 0]\nbot_opinion = [0.5, -0.25]\n";
        if( mean )
            t += "mean_weights = true\nmean_activities = true\n";
    }
    return t;
}

static size_t files( const std::string & dir )
{
    size_t k = 0;
    if( fsys::exists( dir ) )
        for( auto & e : fsys::directory_iterator( dir ) )
            k += e.is_regular_file();
    return k;
}

static void usage()
{
    hx::spit( "conf.toml", config( Deffuant, 2 ) );
    std::vector<std::vector<std::string>> wrong = { {},
                                                    { "-o", "out" },
                                                    { "conf.toml", "-o" },
                                                    { "conf.toml", "--bogus", "-o", "out" },
                                                    { "conf.toml", "more.toml", "-o", "out" } };
    sx_assert( start( wrong[sx_choice( "usage", 5 )] ) != 0, "wrong usage is reported" );
    sx_assert( files( "out" ) == 0 && files( "output" ) == 0, "wrong usage starts nothing" );
    sx_reach( "usage" );
}

static void broken()
{
    int how  = sx_choice( "how", 7 );
    int kind = sx_choice( "model", Kinds );
    auto t   = config( kind, 2 );
    auto put = [&]( const std::string & from, const std::string & to )
    {
        auto at = t.find( from );
        t.replace( at, from.size(), to );
    };
    if( how == 0 )
        put( "model = \"", "model = \"No" );
    if( how == 1 )
        put( "[network]", "[network" );
    if( how == 2 )
        put( "n_output_agents = 1", "n_output_agents = 0" );
    if( how == 4 ) // a setting of the model itself
        t += kind == DeGroot ? "" : kind == Deffuant || kind == Vector ? "mu = 1.5\n" : "eps = 0\n";
    if( how == 4 && kind == DeGroot )
        put( "convergence = 1e-3", "convergence = -1" );
    if( how != 3 )
        hx::spit( "conf.toml", t );
    // whatever else is given on the command line
    std::vector<std::string> args = { "conf.toml", "-o", "out" };
    if( how == 5 || sx_choice( "network file", 2 ) )
    {
        if( how != 5 ) // otherwise it is missing
            hx::spit( "net.txt", "0, 1, 1, 1\n1, 1, 0, 1\n" );
        args.insert( args.end(), { "-n", "net.txt" } );
    }
    if( how == 6 || sx_choice( "agent file", 2 ) )
    {
        if( how != 6 )
            hx::spit( "agents.txt", "0, 1, 0.5, 1, 1\n1, 0, 0.5, 1, 1\n" );
        args.insert( args.end(), { "-a", "agents.txt" } );
    }
    bool ended = false;
    try
    {
        ended = start( args ) == 0;
    }
    catch( const std::exception & )
    {
    }
    sx_assert( !ended, "an unusable configuration is not run" );
    sx_assert( files( "out" ) == 0, "an unusable configuration gives no output" );
    sx_reach( "broken" );
}

template<typename A>
static void run( int kind )
{
    bool deffuant   = kind == Deffuant || kind == Vector;
    bool agentFile  = sx_choice( "agent file", 2 );
    bool netFile    = kind == DeGroot || sx_choice( "network file", 2 );
    bool named      = sx_choice( "output directory", 2 );
    bool longNames  = sx_choice( "long names", 2 );
    bool first      = sx_choice( "options first", 2 );
    size_t n        = deffuant && !agentFile ? 1 : 2;
    hx::spit( "conf.toml", config( kind, n ) );
    std::vector<std::string> args;
    std::optional<std::string> cliNetwork, cliAgents;
    std::string dir = "output";
    if( agentFile )
    {
        // written by hand: index and the columns of the type
        std::string text = "# agents\n";
        for( size_t i = 0; i < n; i++ )
        {
            text += std::to_string( i );
            size_t columns = std::is_same_v<A, SimpleAgent> ? 1 : std::is_same_v<A, DiscreteVectorAgent> ? 2
                             : std::is_same_v<A, ActivityAgent> ? 3 : 4;
            for( size_t c = 0; c < columns; c++ )
                if( std::is_same_v<A, DiscreteVectorAgent> )
                    text += sx_choice( "component", 2 ) ? ", 1" : ", 0";
                else
                    text += fmt::format( ", {}", sx_real( hx::nm( "v", i, c ).c_str(), 0.5, 1 ) );
            text += "\n";
        }
        hx::spit( "agents.txt", text );
        cliAgents = "agents.txt";
        args.insert( args.end(), { longNames ? "--agents" : "-a", "agents.txt" } );
    }
    if( netFile )
    {
        std::string text = "# network\n";
        for( size_t i = 0; i < n; i++ )
        {
            text += fmt::format( "{}, {}", i, n );
            for( size_t j = 0; j < n; j++ )
                text += fmt::format( ", {}", ( i + j ) % n );
            for( size_t j = 0; j < n; j++ )
                text += fmt::format( ", {}", sx_real( hx::nm( "w", i, j ).c_str(), 0, 1 ) );
            text += "\n";
        }
        hx::spit( "net.txt", text );
        cliNetwork = "net.txt";
        args.insert( args.end(), { longNames ? "--network" : "-n", "net.txt" } );
    }
    if( named )
    {
        bool existing = sx_choice( "existing", 2 );
        dir           = existing ? "there" : "a/b/c";
        if( existing )
            fsys::create_directories( dir );
        args.insert( args.end(), { longNames ? "--output" : "-o", dir } );
        sx_reach( existing ? "existing" : "nested" );
    }
    else
        sx_reach( "default" );
    args.insert( first ? args.end() : args.begin(), "conf.toml" );
    sx_assert( start( args ) == 0, "the program succeeds" );

    auto o = Config::parse_config_file( "conf.toml" );
    Simulation<A> reference( o, cliNetwork, cliAgents );
    fsys::create_directories( "reference" );
    reference.run( "reference" );
    sx_assert( files( dir ) == files( "reference" ) && files( dir ) >= 2, "the same files" );
    for( auto & e : fsys::directory_iterator( "reference" ) )
    {
        auto name = e.path().filename().string();
        auto mine = dir + "/" + name;
        sx_assert( fsys::exists( mine ), "every output file" );
        if( name[0] == 'o' )
            sameAgents( agents_from_file<A>( mine ), agents_from_file<A>( "reference/" + name ) );
        else
            sameEdges( NetworkGeneration::generate_from_file<A>( mine ),
                       NetworkGeneration::generate_from_file<A>( "reference/" + name ) );
        sx_reach( "file" );
    }
    // the state the program started from is the one in the files
    sx_reach( hx::nm( "model", kind ).c_str() );
}

extern "C" void sx_main()
{
    int part = sx_param( 0 );
    if( part == 0 )
        return usage();
    if( part == 1 )
        return broken();
    int kind = sx_choice( "model", Kinds );
    withAgent( kind, [&]( auto a ) { run<decltype( a )>( kind ); } );
}
