// N02: merging duplicate edges.
//@ bound: quick: a row of up to 4 edges between two rows of two edges, neighbour indices arbitrary 62 bit numbers, and a row of 5 edges with indices 0..7; thorough: 5 edges with 62 bit indices, 6 edges with indices 0..7; arbitrary real weights, both directions; a row of 20 edges with fixed patterns of neighbours but for one
//@ outside: other rows longer than 6 edges
//@ run quick: 4 62
//@ run quick: 5 3
//@ run quick: 20 3
//@ run thorough: 5 62
//@ run thorough: 6 3
//@ run thorough: 20 3
//@ run thorough: 40 3
//@ reach: merged distinct
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;
using Dir = Net::EdgeDirection;

extern "C" void sx_main()
{
    size_t d      = sx_param( 0 );
    bool incoming = sx_choice( "incoming", 2 );
    int pattern   = d >= 20 ? sx_choice( "pattern", 4 ) : 0;
    std::vector<size_t> len = { (size_t)2, (size_t)( sx_param( 1 ) == 3 ? d : sx_choice( "length", d + 1 ) ), (size_t)2 };
    std::vector<std::vector<size_t>> nb( 3 );
    std::vector<std::vector<double>> w( 3 );
    for( size_t i = 0; i < 3; i++ )
        for( size_t e = 0; e < len[i]; e++ )
        {
            if( d >= 20 && i == 1 && e != 3 )
                nb[i].push_back( pattern == 0 ? e / 2 : pattern == 1 ? ( d - e ) * 3 : pattern == 2 ? ( 7 * e ) % 11 : 5 * ( e % 3 ) );
            else if( sx_param( 1 ) == 3 && i != 1 )
                nb[i].push_back( i == 0 ? 2 : 1 + e );
            else
                nb[i].push_back( sx_range( "neighbour", 0, ( 1ull << sx_param( 1 ) ) - 1 ) );
            w[i].push_back( sx_real( "weight", -10, 10 ) );
        }
    // keep the outer rows small: a duplicate pair, or two neighbours in decreasing and increasing order
    sx_assume( nb[0][0] >= nb[0][1] );
    sx_assume( nb[2][0] <= nb[2][1] );
    auto nb0 = nb;
    auto w0  = w;
    Net net( std::move( nb ), std::move( w ), incoming ? Dir::Incoming : Dir::Outgoing );
    for( size_t i = 0; i < 3; i++ )
        net.agents[i].data.opinion = 7.0 + i;
    auto check = [&]( const char * msg ) {
        sx_assert_( net.n_agents() == 3 && ( net.direction() == Dir::Incoming ) == incoming, msg );
        for( size_t i = 0; i < 3; i++ )
        {
            sx_assert_( net.agents[i].data.opinion == 7.0 + i, msg );
            auto r = net.get_neighbours( i );
            auto v = net.get_weights( i );
            sx_assert_( r.size() == v.size(), msg );
            for( size_t k = 1; k < r.size(); k++ )
                sx_assert_( r[k - 1] < r[k], msg );
            for( size_t k = 0; k < r.size(); k++ )
            {
                double s  = 0;
                bool have = false;
                for( size_t e = 0; e < nb0[i].size(); e++ )
                    if( nb0[i][e] == r[k] )
                    {
                        if( have )
                            sx_reach( "merged" );
                        s    = s + w0[i][e];
                        have = true;
                    }
                sx_assert_( have, "merging invents no neighbour" );
                sx_close_( v[k], s, 0, "the merged weight is the sum of the duplicates' weights" );
            }
            for( size_t e = 0; e < nb0[i].size(); e++ )
            {
                bool have = false;
                for( size_t k = 0; k < r.size(); k++ )
                    have = have || r[k] == nb0[i][e];
                sx_assert_( have, "merging loses no neighbour" );
            }
            if( r.size() > 1 )
                sx_reach( "distinct" );
        }
    };
    net.remove_double_counting();
    check( "after merging, neighbours are strictly increasing and everything else is untouched" );
    net.remove_double_counting();
    check( "merging again changes nothing" );
}
