// C03: which files a run writes, their names and their content.
//@ src: src/models/DeGroot.cpp src/models/DeffuantModel.cpp
//@ bound: 2 agents, runs of 0 to 5 iterations, every first output step from 0 and output interval up to 8 or none; runs of 12 iterations writing one kind of file, every first step up to 13 and interval up to 13, every numbering offset up to 2^40, with and without initial output and progress messages; arbitrary opinions and weights after every iteration
//@ assume: the model is replaced by one that puts arbitrary opinions and weights in place (the models have their own properties)
//@ outside: longer runs (thorough: 8), concurrent writers
//@ run quick: 3 0
//@ run quick: 3 1
//@ run quick: 5 0
//@ run quick: 5 1
//@ run quick: 12 0
//@ run thorough: 3 0
//@ run thorough: 3 1
//@ run thorough: 8 0
//@ run thorough: 8 1
//@ run thorough: 12 0
//@ run thorough: 12 1
//@ reach: initial noinitial agents network never late
#include "io.hpp"
#include "simulation.hpp"
#include <filesystem>
#include <set>
using namespace Seldon;

using Net = Network<SimpleAgent>;
struct Probe : Model<SimpleAgent>
{
    Net & net;
    int t = 0;
    Probe( Net & n, size_t max ) : Model<SimpleAgent>( max ), net( n )
    {
        snapshot();
    }
    // what the files have to contain after the current number of iterations
    void snapshot()
    {
        agents_to_file( net, "expected_opinions_" + std::to_string( t ) );
        network_to_file( net, "expected_network_" + std::to_string( t ) );
    }
    void iteration() override
    {
        Model<SimpleAgent>::iteration();
        t++;
        for( size_t i = 0; i < net.n_agents(); i++ )
            net.agents[i].data.opinion = sx_real( hx::nm( "x", t, i ).c_str(), -5, 5 );
        std::vector<size_t> nb = { 1 };
        net.set_neighbours_and_weights( 0, nb, sx_real( hx::nm( "w", t ).c_str(), -5, 5 ) );
        snapshot();
    }
};

extern "C" void sx_main()
{
    size_t limit = sx_param( 0 ), iterations = limit == 3 ? sx_choice( "iterations", 4 ) : limit;
    hx::spit( "net.txt", "# idx, n, neighbours, weights\n0, 1, 1, 0.5\n1, 2, 0, 1, 0.25, 0.75\n" );
    Config::SimulationOptions options;
    options.rng_seed       = 3;
    options.model          = Config::Model::DeGroot;
    options.model_string   = "DeGroot";
    options.model_settings = Config::DeGrootSettings{};
    size_t most            = limit == 12 ? 13 : 8;
    auto & o               = options.output_settings;
    o.print_progress       = limit < 12 && sx_choice( "progress", 2 );
    o.output_initial       = sx_param( 1 );
    o.start_output         = sx_range( "start_output", 0, most );
    o.start_numbering_from = sx_range( "start_numbering_from", 0, 1ull << 40 );
    bool agents = sx_choice( "agents", 2 );
    if( agents )
        o.n_output_agents = sx_range( "n_output_agents", 1, most );
    if( limit == 12 ? !agents : sx_choice( "network", 2 ) )
        o.n_output_network = sx_range( "n_output_network", 1, most );
    Simulation<SimpleAgent> sim( options, "net.txt", std::nullopt );
    sx_assert( sim.network.n_agents() == 2, "two agents" );
    sim.model = std::make_unique<Probe>( sim.network, iterations );
    std::filesystem::create_directory( "out" );
    sim.run( "out" );
    sx_assert( sim.model->n_iterations() == iterations, "the run has the configured length" );
    std::set<std::string> expected;
    auto check = [&]( const char * kind, size_t t )
    {
        std::string name = fmt::format( "{}_{}.txt", kind, t + o.start_numbering_from );
        expected.insert( name );
        std::string f = "out/" + name;
        sx_assert( std::filesystem::exists( f ), "the file of the step exists" );
        sx_assert( hx::slurp( f ) == hx::slurp( fmt::format( "expected_{}_{}", kind, t ) ),
                   "the file holds the state right after the iteration" );
    };
    if( o.output_initial )
    {
        check( "opinions", 0 );
        check( "network", 0 );
    }
    sx_reach( o.output_initial ? "initial" : "noinitial" );
    for( size_t t = 1; t <= iterations; t++ )
    {
        bool late = t >= o.start_output;
        if( late && o.n_output_agents && t % *o.n_output_agents == 0 )
        {
            check( "opinions", t );
            sx_reach( "agents" );
        }
        if( late && o.n_output_network && t % *o.n_output_network == 0 )
        {
            check( "network", t );
            sx_reach( "network" );
        }
        if( !late )
            sx_reach( "late" );
    }
    std::set<std::string> found;
    for( auto & e : std::filesystem::directory_iterator( "out" ) )
        found.insert( e.path().filename().string() );
    sx_assert( found == expected, "no other files are written" );
    if( expected.empty() )
        sx_reach( "never" );
}
