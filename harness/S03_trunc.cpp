// S03: the truncated normal distribution follows its formulas.
//@ bound: every mean, width > 0, cut-off, argument and draw
//@ assume: erf, exp and the inverse error function are real functions; equal arguments give equal results
//@ run quick: 0
//@ reach: cut normal
#include "common.hpp"
#include "util/math.hpp"
#include <cmath>
#ifdef SX_SYMBOLIC
// the inverse error function has its own claims in S03.cpp; here only its argument matters
template<>
double Seldon::Math::erfinv<double>( double x )
{
    return sx_ufn( "erfinv", x );
}
#endif
using namespace Seldon;

static double cdf( double x, double mean, double sigma )
{
    return 0.5 * ( 1 + std::erf( ( x - mean ) / ( sigma * std::sqrt( 2.0 ) ) ) );
}

extern "C" void sx_main()
{

    sx_close( (double)Math::pi, 3.14159265358979323846, 1e-15, "pi" );
    double mean = sx_real( "mean", -5, 5 ), sigma = sx_real( "sigma", 0.01, 5 ), eps = sx_real( "eps", -5, 5 );
    truncated_normal_distribution<double> d( mean, sigma, eps );
    if( sx_choice( "what", 2 ) == 0 )
    {
        double x = sx_real( "x", -10, 10 );
        double p = d.pdf( x );
        if( x < eps )
        {
            sx_same( p, 0.0, "density below the cut-off" );
            sx_reach( "cut" );
        }
        else
        {
            double z = ( x - mean ) / sigma;
            double g = std::exp( -z * z / 2 ) / ( sigma * std::sqrt( 2 * Math::pi ) );
            sx_close( p, g / ( 1.0 - cdf( eps, mean, sigma ) ), 1e-6, "truncated normal density" );
            sx_reach( "normal" );
        }
    }
    else
    {
        double y = sx_real( "y", 0, 1 );
        double c = cdf( eps, mean, sigma );
        double q = c + ( 1 - c ) * y;
        sx_close( d.inverse_cdf( y ), mean + sigma * std::sqrt( 2.0 ) * Math::erfinv( 2.0 * q - 1.0 ), 1e-6,
                  "truncated normal inverse cdf" );
        std::mt19937 a( 3 ), b( 3 );
        std::uniform_real_distribution<double> u( 0, 1 );
        sx_close( d( a ), d.inverse_cdf( u( b ) ), 1e-9, "samples are inverse cdf values of uniform draws" );
    }
}
