// S03: the mean of the power law is the mean of what it samples.
//@ bound: every minimum in [0.01, 0.9] and exponent in [2.1, 5]
//@ run quick: 0
#include "common.hpp"
#include "util/math.hpp"
using namespace Seldon;

extern "C" void sx_main()
{
    double eps = sx_real( "eps", 0.01, 0.9 ), gamma = sx_real( "gamma", 2.1, 5 );
    power_law_distribution<double> d( eps, gamma );
    double norm = ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, 1.0 - gamma ) );
    sx_close( d.mean(), norm * ( 1.0 - std::pow( eps, 2.0 - gamma ) ) / ( 2.0 - gamma ), 1e-6,
              "power_law_distribution::mean is the mean of its samples" );
}
