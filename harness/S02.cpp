// S02: weighted reservoir sampling.
//@ bound: quick: n up to 5, k up to 2 and for n up to 3 up to n + 1, every weight either zero or an arbitrary real in (0, 100], all draws; thorough: n up to 6
//@ assume: uniform draws lie strictly between 0 and 1; pow, log and their compositions are real functions known by sign, range and monotonicity
//@ run quick: 3
//@ run quick: 4
//@ run quick: 5
//@ run thorough: 3
//@ run thorough: 4
//@ run thorough: 5
//@ run thorough: 6
//@ reach: zeros toomany replaced nothing
#include "common.hpp"
#include "util/math.hpp"

extern "C" void sx_main()
{
    size_t n = sx_param( 0 ) == 3 ? sx_choice( "n", 4 ) : sx_param( 0 );
    size_t k = sx_choice( "k", n < 4 ? n + 2 : 3 );
    std::vector<double> w;
    size_t pos = 0;
    for( size_t i = 0; i < n; i++ )
    {
        w.push_back( sx_choice( "zero", 2 ) ? 0.0 : sx_real( "weight", 0, 100 ) );
        if( sx_issym( w[i] ) || w[i] != 0 )
        {
            sx_assume( w[i] > 0 );
            pos++;
        }
    }
    std::vector<size_t> buffer = { 77, 78 };
    std::mt19937 gen( 1 );
    Seldon::reservoir_sampling_A_ExpJ( k, n, [&]( size_t i ) { return w[i]; }, buffer, gen );
    if( k == 0 )
    {
        sx_assert( buffer.empty(), "k = 0 draws nothing and leaves no stale entries" );
        sx_reach( "nothing" );
        return;
    }
    if( pos < n )
        sx_reach( "zeros" );
    std::vector<int> seen( n, 0 );
    for( auto i : buffer )
    {
        sx_assert( i < n, "indices are in range" );
        seen[i]++;
        sx_assert( seen[i] == 1, "indices are distinct" );
        if( i >= k )
            sx_reach( "replaced" );
    }
    if( k <= pos )
    {
        sx_assert( buffer.size() == k, "k indices are drawn" );
        for( auto i : buffer )
            sx_assert( w[i] > 0, "an index of weight zero is never drawn" );
    }
    if( k > n )
    {
        sx_assert( buffer.size() == n, "more requested than there are: every index once" );
        sx_reach( "toomany" );
    }
}
