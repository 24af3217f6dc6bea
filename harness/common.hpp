// Helpers shared by the harnesses.
#pragma once
#include "sx.h"
#include <string>
#include <vector>
namespace hx
{
// equality of two multisets of reals without deciding any order: all power sums agree
inline void sameMultiset( const std::vector<double> & a, const std::vector<double> & b, const char * msg )
{
    sx_assert_( a.size() == b.size(), msg );
    for( size_t k = 1; k <= a.size(); k++ )
    {
        double s = 0, t = 0;
        for( size_t i = 0; i < a.size(); i++ )
        {
            double p = 1, q = 1;
            for( size_t e = 0; e < k; e++ )
                p = p * a[i], q = q * b[i];
            s = s + p, t = t + q;
        }
        sx_close_( s, t, 0, msg );
    }
}
inline std::string nm( const char * p, size_t i )
{
    return std::string( p ) + std::to_string( i );
}
inline std::string nm( const char * p, size_t i, size_t j )
{
    return std::string( p ) + std::to_string( i ) + "_" + std::to_string( j );
}
} // namespace hx
