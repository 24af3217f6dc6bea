// N01: switching representation and transposing keep all edges.
//@ bound: quick: 3 agents with 0..2 edges each, 2 agents with 0..4 edges each, every choice of neighbours (self loops and parallel edges included), arbitrary real weights, both directions; 12 agents in a ring, some with more edges (one with 20), and two more edges between arbitrary agents in the lists of two of them
//@ outside: larger networks, weight types other than double
//@ run quick: 3 2
//@ run quick: 2 3
//@ run quick: 12 0
//@ run thorough: 3 3
//@ run thorough: 4 2
//@ run thorough: 2 4
//@ run thorough: 12 0
//@ reach: edges selfloop
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;
using Dir = Net::EdgeDirection;

struct Edge
{
    size_t from, to;
    double w;
};
static std::vector<Edge> edges( const Net & n )
{
    std::vector<Edge> r;
    for( size_t i = 0; i < n.n_agents(); i++ )
    {
        auto nb = n.get_neighbours( i );
        auto w  = n.get_weights( i );
        sx_assert( nb.size() == w.size(), "as many weights as neighbours" );
        for( size_t k = 0; k < nb.size(); k++ )
        {
            size_t j = sx_conc( nb[k] );
            if( n.direction() == Dir::Incoming )
                r.push_back( { j, i, w[k] } );
            else
                r.push_back( { i, j, w[k] } );
        }
    }
    return r;
}
static void same( const std::vector<Edge> & a, const std::vector<Edge> & b, bool swap, size_t n, const char * msg )
{
    sx_assert_( a.size() == b.size(), msg );
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
        {
            std::vector<double> x, y;
            for( auto & e : a )
                if( e.from == i && e.to == j )
                    x.push_back( e.w );
            for( auto & e : b )
                if( ( swap ? e.to : e.from ) == i && ( swap ? e.from : e.to ) == j )
                    y.push_back( e.w );
            hx::sameMultiset( x, y, msg );
        }
}
extern "C" void sx_main()
{
    size_t n = sx_param( 0 ), d = sx_param( 1 );
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    bool incoming = sx_choice( "incoming", 2 );
    size_t total  = 0;
    for( size_t i = 0; i < n; i++ )
    {
        size_t k = sx_choice( "degree", d + 1 );
        if( n == 12 )
        {
            k = i % 5 == 2 ? 0 : i == 9 ? 20 : 1 + i % 2;
            for( size_t e = 0; e < k; e++ )
            {
                nb[i].push_back( ( i + 1 + 7 * e ) % n );
                w[i].push_back( sx_real( "weight", -10, 10 ) );
            }
            total += k;
            k = i == 4 || i == 7;
        }
        for( size_t e = 0; e < k; e++ )
        {
            nb[i].push_back( sx_range( "neighbour", 0, n - 1 ) );
            w[i].push_back( sx_real( "weight", -10, 10 ) );
        }
        total += k;
    }
    auto nb0 = nb;
    auto w0  = w;
    Net net( std::move( nb ), std::move( w ), incoming ? Dir::Incoming : Dir::Outgoing );
    for( size_t i = 0; i < n; i++ )
        net.agents[i].data.opinion = 100.0 + i;
    auto e0 = edges( net );
    sx_assert( net.n_agents() == n && net.n_edges() == total, "counts of the constructed network" );
    for( auto & e : e0 )
    {
        sx_reach( "edges" );
        if( e.from == e.to )
            sx_reach( "selfloop" );
    }
    auto check = [&]( const Net & m, bool dirKept, bool reversed, const char * msg ) {
        sx_assert_( ( m.direction() == Dir::Incoming ) == ( dirKept == incoming ), msg );
        sx_assert_( m.n_agents() == n, msg );
        sx_assert_( m.n_edges() == total, msg );
        for( size_t i = 0; i < n; i++ )
            sx_assert_( m.agents[i].data.opinion == 100.0 + i, msg );
        same( e0, edges( m ), reversed, n, msg );
    };
    {
        Net m = net;
        m.toggle_incoming_outgoing();
        check( m, false, false, "toggling keeps the edges and flips the direction" );
        m.toggle_incoming_outgoing();
        check( m, true, false, "toggling twice gives the network back" );
    }
    {
        Net m = net;
        m.transpose();
        check( m, true, true, "transposing reverses every edge and keeps the direction" );
        m.transpose();
        check( m, true, false, "transposing twice gives the network back" );
        m.transpose();
        m.toggle_incoming_outgoing();
        check( m, false, true, "transposing and toggling combine" );
    }
    {
        Net m = net;
        m.switch_direction_flag();
        check( m, false, true, "switching the flag alone turns every edge around" );
        for( size_t i = 0; i < n; i++ )
        {
            sx_assert( m.get_neighbours( i ).size() == nb0[i].size(), "switching the flag keeps the lists" );
            for( size_t k = 0; k < nb0[i].size(); k++ )
            {
                sx_assert( m.get_neighbours( i )[k] == nb0[i][k], "switching the flag keeps the neighbour lists" );
                sx_same( m.get_weights( i )[k], w0[i][k], "switching the flag keeps the weight lists" );
            }
        }
    }
}
