// N03: edge editing operations against a reference model.
//@ bound: quick: 2 agents holding 0..2 edges each (arbitrary neighbours and weights), then one arbitrary editing operation with buffers of length 0..3 on an arbitrary agent, then a second one with buffers of length 0..1; thorough: 3 agents, both operations up to length 3
//@ run quick: 2 2 3 1
//@ run thorough: 3 1 3 2
//@ run thorough: 2 2 3 3
//@ reach: rejected const span weights push clear
#include "common.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
using Net = Seldon::Network<Seldon::SimpleAgent>;
using Dir = Net::EdgeDirection;

extern "C" void sx_main()
{
    size_t n = sx_param( 0 ), d = sx_param( 1 );
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
    {
        size_t k = sx_choice( "initial", d + 1 );
        for( size_t e = 0; e < k; e++ )
        {
            nb[i].push_back( sx_range( "neighbour", 0, n - 1 ) );
            w[i].push_back( sx_real( "weight", -10, 10 ) );
        }
    }
    auto rn = nb; // reference
    auto rw = w;
    Net net( std::move( nb ), std::move( w ), Dir::Outgoing );
    auto check = [&]( const char * msg ) {
        size_t total = 0;
        sx_assert_( net.n_agents() == n && net.direction() == Dir::Outgoing, msg );
        for( size_t i = 0; i < n; i++ )
        {
            const Net & cn = net;
            auto a = net.get_neighbours( i );
            auto b = net.get_weights( i );
            auto ca = cn.get_neighbours( i );
            auto cb = cn.get_weights( i );
            sx_assert_( a.size() == rn[i].size() && b.size() == rw[i].size() && a.size() == b.size(), msg );
            sx_assert_( ca.size() == a.size() && cb.size() == b.size(), msg );
            sx_assert_( net.n_edges( i ) == rn[i].size(), "edge count of one agent" );
            total += rn[i].size();
            for( size_t k = 0; k < a.size(); k++ )
            {
                sx_assert_( a[k] == rn[i][k] && ca[k] == rn[i][k], msg );
                sx_same_( b[k], rw[i][k], msg );
                sx_same_( cb[k], rw[i][k], msg );
            }
        }
        sx_assert_( net.n_edges() == total, "total edge count" );
    };
    check( "constructed network" );
    for( int step = 0; step < 2; step++ )
    {
        size_t L  = sx_param( 2 + step );
        int op    = sx_choice( "operation", 5 );
        size_t at = op == 4 ? 0 : sx_range( "agent", 0, n - 1 );
        size_t ca = sx_conc( at );
        auto mkN  = [&]( size_t k ) {
            std::vector<size_t> r;
            for( size_t e = 0; e < k; e++ )
                r.push_back( sx_range( "edit", 0, n - 1 ) );
            return r;
        };
        auto mkW = [&]( size_t k ) {
            std::vector<double> r;
            for( size_t e = 0; e < k; e++ )
                r.push_back( sx_real( "editweight", -10, 10 ) );
            return r;
        };
        if( op == 0 )
        {
            auto a   = mkN( sx_choice( "length", L + 1 ) );
            double c = sx_real( "constant", -10, 10 );
            net.set_neighbours_and_weights( at, a, c );
            rn[ca] = a;
            rw[ca] = std::vector<double>( a.size(), c );
            sx_reach( "const" );
        }
        else if( op == 1 )
        {
            auto a = mkN( sx_choice( "length", L + 1 ) );
            auto b = mkW( sx_choice( "length2", L + 1 ) );
            bool thrown = false;
            try
            {
                net.set_neighbours_and_weights( at, a, std::span<const double>( b ) );
            }
            catch( std::exception & )
            {
                thrown = true;
            }
            sx_assert( thrown == ( a.size() != b.size() ), "buffers of different length are rejected, others are not" );
            if( !thrown )
                rn[ca] = a, rw[ca] = b, sx_reach( "span" );
            else
                sx_reach( "rejected" );
        }
        else if( op == 2 )
        {
            auto b      = mkW( sx_choice( "length2", L + 1 ) );
            bool thrown = false;
            try
            {
                net.set_weights( at, std::span<const double>( b ) );
            }
            catch( std::exception & )
            {
                thrown = true;
            }
            sx_assert( thrown == ( b.size() != rn[ca].size() ), "weights of the wrong length are rejected, others are not" );
            if( !thrown )
                rw[ca] = b, sx_reach( "weights" );
        }
        else if( op == 3 )
        {
            size_t j  = sx_range( "edit", 0, n - 1 );
            double ww = sx_real( "editweight", -10, 10 );
            net.push_back_neighbour_and_weight( at, j, ww );
            rn[ca].push_back( j );
            rw[ca].push_back( ww );
            sx_reach( "push" );
        }
        else
        {
            net.clear();
            for( size_t i = 0; i < n; i++ )
                rn[i].clear(), rw[i].clear();
            sx_reach( "clear" );
        }
        check( "reading back after an edit" );
    }
}
