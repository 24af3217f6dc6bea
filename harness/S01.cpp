// S01: uniform sampling without replacement.
//@ bound: n up to 6, k up to n+1, with and without an excluded index (also one outside the range), buffers of length 0..2 with arbitrary content, all draws
//@ run quick: 4
//@ run quick: 5
//@ run thorough: 6
//@ run thorough: 7
//@ must: drawn0 drawn1 drawn2 drawn3
//@ reach: excluded toomany
#include "common.hpp"
#include "util/math.hpp"

extern "C" void sx_main()
{
    size_t n = sx_param( 0 );
    if( n == 4 )
        n = sx_range( "n", 0, 4 );
    size_t cn   = sx_conc( n );
    size_t k    = sx_range( "k", 0, cn + 1 );
    bool ignore = sx_choice( "ignore", 2 );
    std::optional<size_t> ign;
    if( ignore )
        ign = sx_range( "excluded", 0, cn + 1 );
    std::vector<size_t> buffer;
    size_t junk = sx_choice( "junk", 2 ) * 2;
    for( size_t i = 0; i < junk; i++ )
        buffer.push_back( sx_range( "old", 0, 1000 ) );
    std::mt19937 gen( 1 );
    Seldon::draw_unique_k_from_n( ign, k, n, buffer, gen );
    size_t eligible = cn - ( ignore && *ign < cn ? 1 : 0 );
    size_t want     = k < eligible ? k : eligible;
    sx_assert( buffer.size() == want, "number of indices drawn" );
    if( k > eligible )
        sx_reach( "toomany" );
    for( size_t i = 0; i < want; i++ )
    {
        sx_assert( buffer[i] < cn, "indices are in range" );
        if( ignore )
        {
            sx_assert( buffer[i] != *ign, "the excluded index is never drawn" );
            sx_reach( "excluded" );
        }
        for( size_t j = 0; j < i; j++ )
            sx_assert( buffer[i] != buffer[j], "indices are distinct" );
        if( want == 1 && eligible == 4 )
            sx_reach( buffer[i] == 0 ? "drawn0" : buffer[i] == 1 ? "drawn1" : buffer[i] == 2 ? "drawn2" : "drawn3" );
    }
}
