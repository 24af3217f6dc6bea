// M04: one Deffuant iteration lets as many admissible pairs interact as there are agents.
//@ src:
//@ bound: without a network 1 to 4 agents, with the lattice 1, 4 and 9 agents (for 9 one selection, otherwise a whole iteration and for 2 agents two), every draw; the rejection of numbers of agents that are no squares for 0 to 40 agents
//@ assume: the interaction itself (M03, M05) is replaced by one that records the pair
//@ outside: more agents; from 3 agents on the interactions between the first and the last one of an iteration repeat the first
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ run thorough: 0
//@ run thorough: 1
//@ run thorough: 2
//@ run thorough: 3
//@ reach: all2 all3 all4 lattice4 lattice9 rejected single
//@ must: first2:0-1 last2:0-1 first3:0-1 first3:0-2 first3:1-2 last3:0-1 last3:0-2 last3:1-2
//@ must: first4:0-1 first4:0-2 first4:0-3 first4:1-2 first4:1-3 first4:2-3 last4:0-1 last4:0-2
//@ must: last4:0-3 last4:1-2 last4:1-3 last4:2-3 pair2:0-1 pair2:0-2 pair2:1-0 pair2:1-3
//@ must: pair2:2-0 pair2:2-3 pair2:3-1 pair2:3-2 pair3:0-1 pair3:0-2 pair3:0-3 pair3:0-6
//@ must: pair3:1-0 pair3:1-2 pair3:1-4 pair3:1-7 pair3:2-0 pair3:2-1 pair3:2-5 pair3:2-8
//@ must: pair3:3-0 pair3:3-4 pair3:3-5 pair3:3-6 pair3:4-1 pair3:4-3 pair3:4-5 pair3:4-7
//@ must: pair3:5-2 pair3:5-3 pair3:5-4 pair3:5-8 pair3:6-0 pair3:6-3 pair3:6-7 pair3:6-8
//@ must: pair3:7-1 pair3:7-4 pair3:7-6 pair3:7-8 pair3:8-2 pair3:8-5 pair3:8-6 pair3:8-7
#include "common.hpp"
#include "models/DeffuantModel.hpp"
using namespace Seldon;

struct ProbeData
{
    int id       = -1;
    double value = 0;
};
using Probe = Agent<ProbeData>;
static std::vector<std::pair<int, int>> pairs;
static size_t middle = 0;
static std::vector<Probe> * all = nullptr;

namespace Seldon
{
template<>
void DeffuantModelAbstract<Probe>::update_rule( Probe & a, Probe & b )
{
    pairs.push_back( { a.data.id, b.data.id } );
    sx_assert( &a == all->data() + a.data.id && &b == all->data() + b.data.id, "the agents of the network interact" );
    // the first and the last interaction are arbitrary, those in between repeat the first one
    if( middle && pairs.size() > 1 && pairs.size() < middle )
        sx_assume( pairs.back() == pairs.front() );
}
} // namespace Seldon
using Mod = DeffuantModelAbstract<Probe>;

static void label( Mod::NetworkT & net )
{
    for( size_t i = 0; i < net.n_agents(); i++ )
        net.agents[i].data.id = i, net.agents[i].data.value = i + 0.5;
    all = &net.agents;
}

static void untouched( Mod::NetworkT & net, size_t n )
{
    sx_assert( net.n_agents() == n && net.agents.size() == n, "number of agents" );
    for( size_t i = 0; i < n; i++ )
        sx_assert( net.agents[i].data.id == i && net.agents[i].data.value == i + 0.5, "nothing else changes the agents" );
}

static void basic( size_t n, int rounds )
{
    Mod::NetworkT net( n );
    std::mt19937 gen( 7 );
    Config::DeffuantSettings settings;
    settings.use_network = false;
    Mod model( settings, net, gen );
    label( net );
    middle = n > 2 ? n : 0;
    for( int r = 1; r <= rounds; r++ )
    {
        pairs.clear();
        model.iteration();
        sx_assert( model.n_iterations() == r, "one iteration" );
        if( n == 1 )
        {
            sx_assert( pairs.empty(), "a single agent has nobody to interact with" );
            sx_reach( "single" );
            return;
        }
        sx_assert( pairs.size() == n, "as many interactions as agents" );
        for( auto [a, b] : pairs )
        {
            sx_assert( a >= 0 && a < n && b >= 0 && b < n, "existing agents" );
            sx_assert( a != b, "two different agents" );
        }
        untouched( net, n );
    }
    // every unordered pair can occur, as the first and as the last interaction
    for( int e = 0; e < 2; e++ )
    {
        auto p = e ? pairs.back() : pairs.front();
        int a = p.first < p.second ? p.first : p.second, b = p.first + p.second - a;
        sx_reach( ( std::string( e ? "last" : "first" ) + std::to_string( n ) + ":"
                    + std::to_string( a ) + "-" + std::to_string( b ) )
                      .c_str() );
    }
    sx_reach( hx::nm( "all", n ).c_str() );
}

static bool linked( size_t e, int a, int b )
{
    // four-neighbourhood on the torus
    int ra = a / e, ca = a % e, rb = b / e, cb = b % e, m = e;
    auto near = [m]( int x, int y ) { return ( x + 1 ) % m == y || ( y + 1 ) % m == x; };
    return ( ra == rb && near( ca, cb ) ) || ( ca == cb && near( ra, rb ) );
}

static void lattice( size_t e, bool whole )
{
    size_t n = e * e;
    Mod::NetworkT net( n );
    std::mt19937 gen( 7 );
    Config::DeffuantSettings settings;
    settings.use_network = true;
    Mod model( settings, net, gen );
    sx_assert( net.n_agents() == n, "the lattice keeps the number of agents" );
    label( net );
    pairs.clear();
    if( whole )
    {
        middle = n;
        model.iteration();
        sx_assert( pairs.size() == n, "as many interactions as agents" );
    }
    else
    {
        auto p = model.select_interacting_agent_pair();
        sx_assert( p.size() == 2, "two agents" );
        pairs.push_back( { p[0], p[1] } );
    }
    untouched( net, n );
    for( auto [a, b] : pairs )
    {
        sx_assert( a >= 0 && a < n && b >= 0 && b < n, "existing agents" );
        sx_assert( linked( e, a, b ), "the second agent is a lattice neighbour of the first" );
    }
    sx_reach( ( hx::nm( "pair", e ) + ":" + std::to_string( pairs[0].first ) + "-" + std::to_string( pairs[0].second ) )
                  .c_str() );
    sx_reach( hx::nm( "lattice", n ).c_str() );
}

extern "C" void sx_main()
{
    switch( sx_param( 0 ) )
    {
        case 0: {
            size_t n = sx_choice( "agents", 41 );
            bool square = false;
            for( size_t e = 0; e * e <= n; e++ )
                square = square || e * e == n;
            Mod::NetworkT net( n );
            std::mt19937 gen( 7 );
            Config::DeffuantSettings settings;
            settings.use_network = true;
            bool thrown          = false;
            try
            {
                Mod model( settings, net, gen );
            }
            catch( const std::exception & )
            {
                thrown = true;
                sx_reach( "rejected" );
            }
            sx_assert( thrown == !square, "exactly the square numbers are accepted" );
            sx_assert( net.n_agents() == n, "number of agents" );
            break;
        }
        case 1: basic( 1 + sx_choice( "agents", 4 ), 1 ); break;
        case 2:
            if( sx_choice( "three", 2 ) )
                lattice( 3, false );
            else if( sx_choice( "two", 2 ) )
                lattice( 2, true );
            else
                basic( 2, 2 );
            break;
        default: lattice( 3 + sx_choice( "edge", 3 ), false ); break;
    }
}
