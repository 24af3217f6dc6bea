// C04: how long runs are.
//@ src:
//@ bound: every model with 1 or 2 agents (for the activity-driven ones all are bots); every limit up to 2^31-1 and none, followed over 4 hand-made iterations (2 agents: 3, in Deffuant models 1) and again after a restart; whole runs of up to 3 iterations (there: 1) started twice, with and without the initial, agent and network files and the progress messages; the base class with every limit of 64 bits over 5 iterations
//@ assume: the DeGroot model's convergence criterion (M02) is switched off by a tolerance of zero
//@ outside: whole runs longer than 3 iterations
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ reach: base unlimited limited ran0 ran1 ran2 ran3 again model0 model1 model2 model3 model4 model5 model6
#include "sim.hpp"
using namespace sim;

struct Plain : Model<SimpleAgent>
{
    Plain( std::optional<size_t> limit ) : Model<SimpleAgent>( limit ) {}
};

template<typename M>
static void follow( M & model, std::optional<size_t> limit, int steps )
{
    for( int round = 0; round < 2; round++ )
    {
        model.initialize_iterations();
        for( size_t k = 0; k <= steps; k++ )
        {
            sx_assert( model.n_iterations() == k, "every iteration counts once" );
            bool over = limit && *limit <= k;
            sx_assert( model.finished() == over, "finished exactly when the limit is reached" );
            if( k < steps )
                model.iteration();
        }
    }
    sx_reach( limit ? "limited" : "unlimited" );
}

static void prepare( int kind, size_t n, Config::SimulationOptions & o, std::optional<std::string> & net )
{
    o.network_settings.n_agents      = n;
    o.network_settings.n_connections = n - 1;
    if( kind == DeGroot )
    {
        hx::spit( "net.txt", n == 1 ? "0, 1, 0, 1\n" : "0, 2, 0, 1, 0.5, 0.5\n1, 2, 0, 1, 0.25, 0.75\n" );
        net = "net.txt";
    }
}

extern "C" void sx_main()
{
    int part = sx_param( 0 );
    if( part == 0 )
    {
        std::optional<size_t> limit;
        if( sx_choice( "limited", 2 ) )
            limit = sx_range( "limit", 0, UINT64_MAX );
        Plain m( limit );
        sx_assert( m.n_iterations() == 0, "nothing done yet" );
        follow( m, limit, 5 );
        sx_reach( "base" );
        return;
    }
    int kind = sx_choice( "model", Kinds );
    if( part == 1 )
    {
        std::optional<int> limit;
        if( sx_choice( "limited", 2 ) )
            limit = sx_irange( "limit", 0, INT32_MAX );
        size_t n  = 1 + sx_choice( "agents", 2 );
        int steps = n == 1 ? 4 : kind == Deffuant || kind == Vector ? 1 : 3;
        auto o    = options( kind, limit, n );
        std::optional<std::string> net;
        prepare( kind, n, o, net );
        withAgent( kind, [&]( auto a ) {
            Simulation<decltype( a )> s( o, net, std::nullopt );
            std::optional<size_t> l;
            if( limit )
                l = *limit;
            follow( *s.model, l, steps );
        } );
        sx_reach( hx::nm( "model", kind ).c_str() );
        return;
    }
    size_t n  = 1 + sx_choice( "agents", 2 );
    int limit = sx_choice( "limit", n == 2 && ( kind == Deffuant || kind == Vector ) ? 2 : 4 );
    auto o    = options( kind, limit, n );
    std::optional<std::string> net;
    prepare( kind, n, o, net );
    // what is written does not matter for how long a run is
    bool initial = sx_choice( "initial", 2 ), agents = sx_choice( "output", 2 );
    o.output_settings.output_initial = initial;
    o.output_settings.print_progress = !initial;
    if( agents )
        o.output_settings.n_output_agents = 1;
    else
        o.output_settings.n_output_network = 2;
    withAgent( kind, [&]( auto a ) {
        Simulation<decltype( a )> s( o, net, std::nullopt );
        for( int round = 0; round < 2; round++ )
        {
            auto dir = hx::nm( "out", round );
            std::filesystem::create_directory( dir );
            s.run( dir );
            sx_assert( s.model->n_iterations() == limit, "the run has the configured length" );
            sx_assert( s.model->finished(), "the run is over" );
            for( int k = 0; k <= 5; k++ )
                sx_assert( std::filesystem::exists( dir + "/opinions_" + std::to_string( k ) + ".txt" )
                               == ( k == 0 ? initial : agents && k <= limit ),
                           "one file per iteration" );
        }
        sx_reach( "again" );
    } );
    sx_reach( hx::nm( "ran", limit ).c_str() );
}
