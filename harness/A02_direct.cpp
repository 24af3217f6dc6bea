// A02: the step is taken when the model is used directly, in an optimised translation unit of its own.
//@ src: src/models/ActivityDrivenModel.cpp
//@ optimise: yes
//@ bound: one agent without contacts and two agents of which one contacts the other; every real opinion, reluctance, K and step size
//@ run quick: 1
//@ run quick: 2
//@ run thorough: 1
//@ run thorough: 2
//@ reach: direct
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
using namespace Seldon;

extern "C" void sx_main()
{
    size_t n = sx_param( 0 );
    Config::ActivityDrivenSettings settings;
    settings.m           = 1;
    settings.homophily   = 0;
    settings.reciprocity = 0;
    settings.K           = sx_real( "K", 0, 10 );
    settings.dt          = sx_real( "dt", 0, 1 );
    Network<ActivityAgent> net( 0 );
    std::mt19937 gen( 5 );
    ActivityDrivenModel model( settings, net, gen );
    net = Network<ActivityAgent>( n );
    std::vector<double> x( n ), k1( n ), k2( n ), k3( n ), k4( n );
    double r = sx_real( "reluctance", 0.1, 10 );
    for( size_t i = 0; i < n; i++ )
        net.agents[i].data = { x[i] = sx_real( "opinion", -5, 5 ), i == 1 ? 1.0 : 0.0, r };
    model.iteration();
    sx_reach( "direct" );
    auto slope = [&]( double own, double other )
    { return n == 2 ? -own + settings.K / r * std::tanh( settings.alpha * other ) : -own; };
    double h = settings.dt;
    // agent 1 contacts agent 0, so that agent 0 influences nobody and agent 1 influences agent 0
    double y = n == 2 ? x[1] : 0;
    double l1 = -y, l2 = -( y + h / 2 * l1 ), l3 = -( y + h / 2 * l2 ), l4 = -( y + h * l3 );
    double a = slope( x[0], y ), b = slope( x[0] + h / 2 * a, y + h / 2 * l1 ), c = slope( x[0] + h / 2 * b, y + h / 2 * l2 ),
           d = slope( x[0] + h * c, y + h * l3 );
    sx_close( net.agents[0].data.opinion, x[0] + h / 6 * ( a + 2 * b + 2 * c + d ), 1e-9, "opinion after one step" );
    if( n == 2 )
        sx_close( net.agents[1].data.opinion, y + h / 6 * ( l1 + 2 * l2 + 2 * l3 + l4 ), 1e-9, "opinion of the contacting agent" );
}
