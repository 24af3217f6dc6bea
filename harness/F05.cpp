// F05: arbitrary input files.
//@ bound: quick: network and agent files (every agent type) consisting of up to 4 arbitrary bytes, and well formed network and agent files in which any one or two consecutive bytes (thorough: three) are replaced by arbitrary ones or deleted, or which are cut off anywhere; thorough: up to 5 arbitrary bytes
//@ assume: memory errors are those AddressSanitizer and the checked standard library detect
//@ outside: files with more arbitrary bytes; running out of memory
//@ run quick: 0 4
//@ run quick: 1 1
//@ run quick: 1 2
//@ run quick: 2 3
//@ run quick: 3 1
//@ run thorough: 0 5
//@ run thorough: 1 1
//@ run thorough: 1 2
//@ run thorough: 1 3
//@ run thorough: 2 4
//@ run thorough: 3 1
//@ run thorough: 3 2
//@ reach: accepted rejected agents
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "io.hpp"
#include "network.hpp"
#include "network_generation.hpp"
using namespace Seldon;

static void readNetwork( const std::string & f )
{
    try
    {
        auto net = NetworkGeneration::generate_from_file<SimpleAgent>( f );
        size_t n = net.n_agents();
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = net.get_neighbours( i );
            auto w  = net.get_weights( i );
            sx_assert( nb.size() == w.size(), "as many weights as neighbours" );
            for( auto j : nb )
                sx_assert( j < n, "neighbours exist" );
        }
        sx_reach( "accepted" );
    }
    catch( const std::exception & )
    {
        sx_reach( "rejected" );
    }
}
template<typename A>
static void readAgents( const std::string & f )
{
    try
    {
        auto as = agents_from_file<A>( f );
        sx_assert( as.size() < 100, "not more agents than lines" );
        sx_reach( "agents" );
    }
    catch( const std::exception & )
    {
        sx_reach( "rejected" );
    }
}

extern "C" void sx_main()
{
    sx_option( "termination", 1 );
    size_t mode = sx_param( 0 ), k = sx_param( 1 );
    std::string s;
    switch( mode )
    {
        case 0: // arbitrary network file
        case 2: // arbitrary agent file
        {
            size_t len = sx_choice( "length", k + 1 );
            for( size_t i = 0; i < len; i++ )
                s.push_back( (char)sx_byte( "byte" ) );
            break;
        }
        case 1:
        case 3:
        {
            s = mode == 1 ? "# c\n0, 2, 1, 0, 0.5, 1.5\n1, 0\n2, 1, 2, 1\n" : "#\n0, 1, 2, 3, 4\n1, 0.5, 1, 0, 2\n";
            size_t at = sx_choice( "at", s.size() );
            switch( sx_choice( "how", 3 ) )
            {
                case 0: // replace
                    for( size_t i = at; i < at + k && i < s.size(); i++ )
                        s[i] = (char)sx_byte( "byte" );
                    break;
                case 1: // delete
                    s.erase( at, k );
                    break;
                case 2: // cut off, with one arbitrary byte
                    s.resize( at );
                    s.push_back( (char)sx_byte( "byte" ) );
                    break;
            }
            break;
        }
    }
    hx::spit( "in.txt", s );
    if( mode <= 1 )
        readNetwork( "in.txt" );
    else
        switch( sx_choice( "type", 4 ) )
        {
            case 0:
                readAgents<SimpleAgent>( "in.txt" );
                break;
            case 1:
                readAgents<ActivityAgent>( "in.txt" );
                break;
            case 2:
                readAgents<InertialAgent>( "in.txt" );
                break;
            case 3:
                readAgents<DiscreteVectorAgent>( "in.txt" );
                break;
        }
}
