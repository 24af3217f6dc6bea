// F03: dot files.
//@ bound: 0..3 agents with every neighbour list of up to 2 entries, 4 agents with lists of fixed lengths 3, 0, 1, 0 and every neighbour, 13 agents with fixed lists but for one of two arbitrary neighbours
//@ run quick: 2
//@ run quick: 3
//@ run quick: 4
//@ run quick: 13
//@ reach: none some
#include "agents/simple_agent.hpp"
#include "io.hpp"
#include "network.hpp"
#include "network_io.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;

extern "C" void sx_main()
{
    size_t N = sx_param( 0 );
    size_t n = N == 2 ? sx_choice( "agents", 3 ) : N;
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    const size_t fixed[4] = { 3, 0, 1, 0 };
    for( size_t i = 0; i < n; i++ )
    {
        size_t d = N == 4 ? fixed[i] : N == 13 ? ( i == 11 ? 2 : i % 4 ) : sx_choice( "length", N == 3 ? 2 : 3 );
        for( size_t e = 0; e < d; e++ )
        {
            nb[i].push_back( N == 13 && i != 11 ? ( 5 * i + 3 * e ) % n : sx_choice( "neighbour", n ) );
            w[i].push_back( 0.5 );
        }
    }
    Net net( std::vector<std::vector<size_t>>( nb ), std::move( w ), Net::EdgeDirection::Incoming );
    Seldon::network_to_dot_file( net, "net.dot" );
    auto ls = hx::lines( hx::slurp( "net.dot" ) );
    sx_assert( ls.size() == n + 2, "one line per agent" );
    sx_assert( ls[0] == "digraph G {", "start of the digraph" );
    sx_assert( ls[n + 1] == "}", "end of the digraph" );
    for( size_t i = 0; i < n; i++ )
    {
        std::string want = std::to_string( i ) + " <- {";
        for( size_t e = 0; e < nb[i].size(); e++ )
            want += ( e ? ", " : "" ) + std::to_string( nb[i][e] );
        want += "}";
        sx_assert( ls[i + 1] == want, "line of an agent" );
        sx_reach( nb[i].empty() ? "none" : "some" );
    }
}
