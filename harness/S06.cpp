// S06: weighted sampling is algorithm A-ExpJ, so that heavier indices are preferred in proportion to their weights.
//@ bound: k = 1 of 2 with every pair of weights in [0.01, 100]; k = 1 of 3 and k = 2 of 3 with four concrete weight patterns, k = 2 of 4 with two; all draws
//@ assume: uniform draws lie strictly between 0 and 1; pow and log are real functions known by sign, range, monotonicity and their laws
//@ assume: no two keys are equal
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ run quick: 3
//@ reach: kept replaced
#include "common.hpp"
#include "util/math.hpp"
#include <algorithm>
#include <cmath>
#include <random>
#include <vector>

// Efraimidis and Spirakis, "Weighted random sampling with a reservoir", algorithm A-ExpJ
static std::vector<size_t> reference( size_t k, const std::vector<double> & w, std::mt19937 & gen )
{
    std::uniform_real_distribution<double> u( 0, 1 );
    std::vector<std::pair<double, size_t>> r;
    for( size_t i = 0; i < k; i++ )
        r.push_back( { std::pow( u( gen ), 1.0 / w[i] ), i } );
    auto least = [&]()
    {
        size_t m = 0;
        for( size_t i = 1; i < r.size(); i++ )
        {
            sx_assume( r[i].first != r[m].first ); // equal keys have probability zero
            if( r[i].first < r[m].first )
                m = i;
        }
        return m;
    };
    double jump = std::log( u( gen ) ) / std::log( r[least()].first );
    double sum  = 0;
    for( size_t i = k; i < w.size(); i++ )
    {
        sum += w[i];
        if( sum < jump )
            continue;
        size_t m = least();
        double t = std::pow( r[m].first, w[i] );
        r[m]     = { std::pow( t + ( 1 - t ) * u( gen ), 1.0 / w[i] ), i };
        jump     = std::log( u( gen ) ) / std::log( r[least()].first );
        sum      = 0;
        sx_reach( "replaced" );
    }
    sx_reach( "kept" );
    std::vector<size_t> out;
    for( auto & x : r )
        out.push_back( x.second );
    std::sort( out.begin(), out.end() );
    return out;
}

extern "C" void sx_main()
{
    int what = sx_param( 0 );
    size_t n = what == 0 ? 2 : what == 3 ? 4 : 3, k = what < 2 ? 1 : 2;
    std::vector<double> w;
    static const double patterns[][4] = { { 1, 1, 1, 1 }, { 1, 2, 3, 4 }, { 4, 0.5, 2, 0.25 }, { 0.5, 3, 0.125, 2 } };
    if( what == 0 )
        w = { sx_real( "first weight", 0.01, 100 ), sx_real( "second weight", 0.01, 100 ) };
    else
    {
        int p = sx_choice( "pattern", 4 );
        for( size_t i = 0; i < n; i++ )
            w.push_back( patterns[p][i] );
    }
    std::mt19937 a( 1 ), b( 1 );
    auto want = reference( k, w, b );
    std::vector<size_t> buffer;
    Seldon::reservoir_sampling_A_ExpJ( k, n, [&]( size_t i ) { return w[i]; }, buffer, a );
    std::sort( buffer.begin(), buffer.end() );
    sx_assert( buffer == want, "the indices that algorithm A-ExpJ selects" );
}
