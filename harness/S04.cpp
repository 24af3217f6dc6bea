// S04: Hamming distance.
//@ bound: lengths 0..5 each (thorough 7), arbitrary 32 bit components, and length 70 with four arbitrary pairs of components
//@ run quick: 5
//@ run quick: 70
//@ run thorough: 7
//@ run thorough: 70
//@ reach: equal differ unequal
#include "common.hpp"
#include "util/math.hpp"

extern "C" void sx_main()
{
    size_t m = sx_param( 0 );
    if( m == 70 )
    {
        std::vector<int> x( m, 3 ), y( m, 3 );
        int want = 0;
        for( size_t i : { 0, 31, 64, 69 } )
        {
            x[i] = sx_irange( "x", INT32_MIN, INT32_MAX );
            y[i] = sx_irange( "y", INT32_MIN, INT32_MAX );
            want += x[i] != y[i];
        }
        sx_assert( Seldon::hamming_distance( std::span<int>( x ), std::span<int>( y ) ) == want, "the number of differing positions" );
        return;
    }
    size_t a = sx_choice( "length1", m + 1 ), b = sx_choice( "length2", m + 1 );
    std::vector<int> x, y;
    for( size_t i = 0; i < a; i++ )
        x.push_back( sx_irange( "x", INT32_MIN, INT32_MAX ) );
    for( size_t i = 0; i < b; i++ )
        y.push_back( sx_irange( "y", INT32_MIN, INT32_MAX ) );
    bool thrown = false;
    int d = -1;
    try
    {
        d = Seldon::hamming_distance( std::span<int>( x ), std::span<int>( y ) );
    }
    catch( std::exception & )
    {
        thrown = true;
    }
    sx_assert( thrown == ( a != b ), "exactly vectors of different length are rejected" );
    if( thrown )
    {
        sx_reach( "unequal" );
        return;
    }
    int want = 0;
    for( size_t i = 0; i < a; i++ )
        if( x[i] != y[i] )
            want++;
    sx_assert( d == want, "the number of differing positions" );
    sx_assert( Seldon::hamming_distance( std::span<int>( y ), std::span<int>( x ) ) == d, "symmetric" );
    if( d == 0 && a == m )
        sx_reach( "equal" );
    if( d > 0 )
        sx_reach( "differ" );
}
