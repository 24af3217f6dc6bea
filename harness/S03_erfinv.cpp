// S03: the inverse error function has the right values.
//@ bound: every argument whose distance from the end points is at least 1e-16, in all three branches of the approximation (arguments near an end point are written as 1 - 2 exp(-s^2))
//@ assume: exp and log are inverse to each other, log1p(x) = log(1+x)
//@ outside: rounding errors; errors below 1e-8
//@ run quick: 0
//@ run quick: 1
//@ reach: middle tail
#include "common.hpp"
#include "erfinv_table.hpp"
#include "util/erfinv.hpp"
#include <cmath>
using namespace Seldon;

static double value( const Segment & g, double x )
{
    double u = x - g.centre, r = 0;
    for( int i = 8; i >= 0; i-- )
        r = r * u + g.c[i];
    return r;
}

extern "C" void sx_main()
{
    if( sx_param( 0 ) == 0 )
    {
        auto & g = middle[sx_choice( "segment", std::size( middle ) )];
        double x = sx_real( "x", g.from, g.to );
        sx_close( Math::erfinv( x ), value( g, x ), 1e-8, "inverse error function" );
        sx_reach( "middle" );
    }
    else
    {
        auto & g = tail[sx_choice( "segment", std::size( tail ) )];
        double s = sx_real( "s", g.from, g.to );
        double e = std::exp( -s * s );
        // the exponential function decreases
        sx_assume( e <= 0.075 && e > 0 );
        sx_close( Math::erfinv( 1 - 2 * e ), value( g, s ), 1e-8, "inverse error function near one" );
        sx_reach( "tail" );
    }
}
