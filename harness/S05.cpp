// S05: choices that should be uniform are unbiased.
//@ src: src/models/DeffuantModel.cpp src/models/DeffuantModelVector.cpp
//@ bound: sampling without replacement: n up to 5, k up to 3, any excluded index; random networks of 3 agents with 1 connection and 4 with 2 (neighbours of every agent); Deffuant iterations of 2 and 3 agents; interaction pairs on the 2x2 and 3x3 lattice; 2 agents with binary vectors of length 2
//@ assume: integer draws are independent and uniform on their ranges
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ run quick: 3
//@ run quick: 4
//@ reach: sample network deffuant lattice vector
#include "common.hpp"
#include "models/DeffuantModel.hpp"
#include "network_generation.hpp"
#include "util/math.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
using namespace Seldon;

static long choose( long n, long k )
{
    long r = 1;
    for( long i = 0; i < k; i++ )
        r = r * ( n - i ) / ( i + 1 );
    return r;
}
static std::string text( std::vector<size_t> v )
{
    for( auto & i : v )
        i = sx_conc( i );
    std::sort( v.begin(), v.end() );
    std::string r;
    for( auto i : v )
        r += ( r.empty() ? "" : "+" ) + std::to_string( i );
    return r;
}
static std::string rounded( double x )
{
    return std::to_string( std::lround( x * 1e6 ) );
}

static void sample()
{
    size_t n = 1 + sx_choice( "n", 5 ), k = 1 + sx_choice( "k", 3 ), x = sx_choice( "excluded", n + 1 );
    std::optional<size_t> excluded;
    if( x < n )
        excluded = x;
    size_t m = x < n ? n - 1 : n;
    if( m < k )
        return;
    std::vector<size_t> buffer;
    std::mt19937 gen( 1 );
    draw_unique_k_from_n( excluded, k, n, buffer, gen );
    std::string group = std::to_string( k ) + "-of-" + std::to_string( n ) + "-without-" + std::to_string( x );
    sx_outcome( group.c_str(), text( buffer ).c_str(), 1, choose( m, k ) );
    sx_reach( "sample" );
}
static void network()
{
    bool large = sx_choice( "large", 2 );
    size_t n = large ? 4 : 3, k = large ? 2 : 1;
    bool self = sx_choice( "self", 2 );
    std::mt19937 gen( 1 );
    auto net = NetworkGeneration::generate_n_connections<SimpleAgent>( n, k, self, gen );
    size_t i = sx_choice( "agent", n );
    std::vector<size_t> nb;
    for( auto j : net.get_neighbours( i ) )
        if( j != i )
            nb.push_back( j );
    std::string group = std::string( "neighbours-of-" ) + std::to_string( i ) + "-in-" + std::to_string( n ) + ( self ? "s" : "" );
    sx_outcome( group.c_str(), text( nb ).c_str(), 1, choose( n - 1, k ) );
    sx_reach( "network" );
}
// final opinions after one iteration, with their probabilities by the definition of the model
static void expected( std::vector<double> x, size_t left, double p, std::map<std::string, double> & out, long & all )
{
    size_t n = x.size();
    if( !left )
    {
        std::string s;
        for( double v : x )
            s += ( s.empty() ? "" : "," ) + rounded( v );
        out[s] += 1;
        all++;
        return;
    }
    for( size_t i = 0; i < n; i++ )
        for( size_t j = i + 1; j < n; j++ )
        {
            auto y   = x;
            double d = x[j] - x[i];
            y[i] += 0.25 * d, y[j] -= 0.25 * d;
            expected( y, left - 1, p, out, all );
        }
}
static void deffuant()
{
    size_t n = 2 + sx_choice( "n", 2 );
    std::vector<double> x;
    for( size_t i = 0; i < n; i++ )
        x.push_back( double( i * i + 1 ) / 10 );
    Config::DeffuantSettings settings;
    settings.homophily_threshold = 100, settings.mu = 0.25, settings.max_iterations = 5;
    Network<SimpleAgent> net( n );
    std::mt19937 gen( 1 );
    DeffuantModel model( settings, net, gen );
    for( size_t i = 0; i < n; i++ )
        net.agents[i].data.opinion = x[i];
    model.iteration();
    std::map<std::string, double> out;
    long all = 0;
    expected( x, n, 1, out, all );
    std::string s;
    for( auto & a : net.agents )
        s += ( s.empty() ? "" : "," ) + rounded( a.data.opinion );
    std::string group = "opinions-of-" + std::to_string( n );
    sx_outcome( group.c_str(), s.c_str(), out.count( s ) ? (long)out[s] : 0, all );
    sx_reach( "deffuant" );
}
// the pairs are only visible through the selection function
template<typename ModelT>
static void lattice()
{
    if constexpr( requires( ModelT m ) { m.select_interacting_agent_pair().size(); } )
    {
        size_t L = 2 + sx_choice( "edge", 2 ), n = L * L;
        Config::DeffuantSettings settings;
        settings.use_network = true;
        Network<SimpleAgent> net( n );
        std::mt19937 gen( 1 );
        ModelT model( settings, net, gen );
        auto p = model.select_interacting_agent_pair();
        sx_assert( p.size() == 2, "a pair is selected" );
        size_t i = sx_conc( p[0] ), j = sx_conc( p[1] );
        auto at = [&]( size_t r, size_t c ) { return ( r % L ) * L + c % L; };
        size_t r = i / L, c = i % L;
        long times = 0;
        for( size_t q : { at( r + 1, c ), at( r + L - 1, c ), at( r, c + 1 ), at( r, c + L - 1 ) } )
            times += q == j;
        std::string group = "lattice-pairs-of-" + std::to_string( n );
        sx_outcome( group.c_str(), ( std::to_string( i ) + "-" + std::to_string( j ) ).c_str(), times, 4 * n );
    }
    sx_reach( "lattice" );
}
static void binary()
{
    Config::DeffuantSettings settings;
    settings.use_binary_vector = true, settings.dim = 2;
    Network<DiscreteVectorAgent> net( 2 );
    std::mt19937 gen( 1 );
    DeffuantModelVector model( settings, net, gen );
    model.initialize_agents( 2 );
    std::string s;
    for( auto & a : net.agents )
        for( int o : a.data.opinion )
            s += o == 0 ? "0" : o == 1 ? "1" : "?";
    sx_outcome( "initial-vectors", s.c_str(), s.find( '?' ) == std::string::npos, 16 );
    sx_reach( "vector" );
}

extern "C" void sx_main()
{
    switch( sx_param( 0 ) )
    {
        case 0: return sample();
        case 1: return network();
        case 2: return deffuant();
        case 3: return lattice<DeffuantModel>();
        case 4: return binary();
    }
}
