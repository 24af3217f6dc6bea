// S03: probability distributions.
//@ bound: every minimum in [1e-6, 0.999], exponent in [1.001, 10], argument and draw; every mean, width > 0 and cut-off; every covariance in (-1, 1)
//@ assume: pow, erf, exp, sqrt and log are real functions known by sign, range and monotonicity; equal arguments give equal results
//@ outside: numerical accuracy of the inverse error function between its end points
//@ run quick: 0
//@ run quick: 1
//@ run quick: 3
//@ run quick: 4
//@ reach: power mean copula nan pinf ninf inner outer
#include "common.hpp"
#include "util/math.hpp"
#include <array>
#include <cmath>
using namespace Seldon;

static double cdf( double x, double mean, double sigma )
{
    return 0.5 * ( 1 + std::erf( ( x - mean ) / ( sigma * std::sqrt( 2.0 ) ) ) );
}

extern "C" void sx_main()
{
    std::mt19937 gen( 7 );
    switch( sx_param( 0 ) )
    {
        case 0: // power law: support
        {
            double eps = sx_real( "eps", 1e-6, 0.999 ), gamma = sx_real( "gamma", 1.001, 10 );
            power_law_distribution<double> d( eps, gamma );
            switch( sx_choice( "what", 3 ) )
            {
                case 0:
                    sx_close( d.inverse_cdf( 0.0 ), eps, 1e-9, "inverse cdf of zero is the minimum" );
                    break;
                case 1:
                    sx_close( d.inverse_cdf( 1.0 ), 1.0, 1e-9, "inverse cdf of one is one" );
                    break;
                case 2:
                {
                    double x = d( gen );
                    sx_le( eps, x, 1e-9, "samples are not below the minimum" );
                    sx_le( x, 1.0, 1e-9, "samples are not above one" );
                    sx_reach( "power" );
                    break;
                }
            }
            break;
        }
        case 1: // power law: formulas
        {
            double eps = sx_real( "eps", 0.01, 0.9 ), gamma = sx_real( "gamma", 1.1, 5 ), x = sx_real( "x", 0.01, 1 );
            power_law_distribution<double> d( eps, gamma );
            double norm = ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, 1.0 - gamma ) );
            switch( sx_choice( "what", 3 ) )
            {
                case 0:
                    sx_close( d.pdf( x ), norm * std::pow( x, -gamma ), 1e-6, "density of the power law" );
                    sx_le( 0, d.pdf( x ), 1e-9, "the density is not negative" );
                    break;
                case 1:
                    sx_assume( gamma > 2.1 );
                    // integral of x p(x) over the documented range [eps, infinity)
                    sx_close( d.mean(), norm * std::pow( eps, 2.0 - gamma ) / ( gamma - 2.0 ), 1e-6, "mean of the power law" );
                    sx_reach( "mean" );
                    break;
                case 2:
                {
                    double y = sx_real( "y", 0, 1 );
                    sx_close( d.inverse_cdf( y ),
                              std::pow( ( 1.0 - y ) * std::pow( eps, 1.0 - gamma ) + y, 1.0 / ( 1.0 - gamma ) ), 1e-9,
                              "inverse cdf of the power law" );
                }
            }
            break;
        }
        case 3: // correlated normals and copula
        {
            double cov = sx_real( "cov", -0.999, 0.999 );
            std::normal_distribution<double> n;
            if( sx_choice( "what", 2 ) == 0 )
            {
                bivariate_normal_distribution<double> d( cov );
                std::mt19937 a( 3 ), b( 3 );
                auto r    = d( a );
                double n1 = n( b ), n2 = n( b );
                sx_close( r[0], n1, 1e-9, "first correlated normal" );
                sx_close( r[1], cov * n1 + std::sqrt( 1 - cov * cov ) * n2, 1e-6, "second correlated normal" );
                // conditional on the same draws: unit variance and the requested covariance
                double s = std::sqrt( 1 - cov * cov );
                sx_close( cov * cov + s * s, 1.0, 1e-9, "unit variance" );
            }
            else
            {
                double e1 = sx_real( "eps", 0.01, 0.9 ), gm = sx_real( "gamma", 2.1, 5 );
                double mean = sx_real( "mean", 0.1, 5 ), sigma = sx_real( "sigma", 0.1, 5 ), e2 = sx_real( "cutoff", 0.01, 1 );
                power_law_distribution<double> p( e1, gm );
                struct Second // the second marginal: any inverse distribution function
                {
                    double mean, sigma, eps;
                    double inverse_cdf( double y )
                    {
                        return mean + sigma * y + eps;
                    }
                } t{ mean, sigma, e2 };
                bivariate_gaussian_copula<double, power_law_distribution<double>, Second> d( cov, p, t );
                std::mt19937 a( 3 ), b( 3 );
                auto r    = d( a );
                double n1 = n( b ), n2 = n( b );
                double z2 = cov * n1 + std::sqrt( 1 - cov * cov ) * n2;
                sx_close( r[0], p.inverse_cdf( cdf( n1, 0, 1 ) ), 1e-6, "first copula marginal" );
                sx_close( r[1], t.inverse_cdf( cdf( z2, 0, 1 ) ), 1e-6, "second copula marginal" );
                sx_le( e1, r[0], 1e-9, "first marginal not below its minimum" );
                sx_le( r[0], 1.0, 1e-9, "first marginal not above one" );
                sx_reach( "copula" );
            }
            break;
        }
        case 4: // inverse error function
        {
            double x = sx_choice( "nan", 2 ) ? (double)NAN : sx_real( "x", -3, 3 );
            double y = Math::erfinv( x );
            if( std::isnan( x ) )
                break;
            if( x > 1 || x < -1 )
            {
                sx_assert( std::isnan( y ), "outside [-1,1]: not a number" );
                sx_reach( "nan" );
                break;
            }
            if( x == 1 )
            {
                sx_assert( std::isinf( y ) && y > 0, "erfinv(1) = infinity" );
                sx_reach( "pinf" );
                break;
            }
            if( x == -1 )
            {
                sx_assert( std::isinf( y ) && y < 0, "erfinv(-1) = -infinity" );
                sx_reach( "ninf" );
                break;
            }
            sx_assert( std::isfinite( y ), "finite inside (-1,1)" );
            double m = Math::erfinv( -x );
            sx_close( y, -m, 1e-9, "odd" );
            sx_reach( ( x < 0.5 && x > -0.5 ) ? "inner" : "outer" );
            break;
        }
    }
}
