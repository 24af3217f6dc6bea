// F02: agent files.
//@ bound: every agent type, 0..3 and 12 agents, every real value of every field, opinion vectors of 1..3 arbitrary 32 bit components
//@ outside: field values that are subnormal, infinite or NaN; vectors longer than 3
//@ run quick: 3
//@ run quick: 12
//@ run thorough: 4
//@ run thorough: 12
//@ reach: simple activity inertial discrete comment missing
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "io.hpp"
#include "network.hpp"
using namespace Seldon;

// the file an agent list is written to, with a comment line inserted before row k (or none)
template<typename A>
std::vector<A> roundTrip( const std::vector<A> & as, std::vector<std::vector<std::string>> & cols, std::string & header )
{
    Network<A> net( as.size() );
    net.agents = as;
    agents_to_file( net, "agents.txt" );
    auto text = hx::slurp( "agents.txt" );
    auto ls   = hx::lines( text );
    sx_assert( ls.size() == as.size() + 1, "one row per agent after the header" );
    header = ls[0];
    for( size_t i = 0; i < as.size(); i++ )
    {
        cols.push_back( hx::columns( ls[i + 1] ) );
        sx_assert( cols[i][0] == std::to_string( i ), "agent index" );
    }
    if( sx_choice( "comment", 2 ) )
    {
        size_t at = sx_choice( "before", as.size() + 1 );
        ls.insert( ls.begin() + 1 + at, "# a comment, 1, 2" );
        bool nl = sx_choice( "finalnewline", 2 );
        std::string t;
        for( size_t i = 0; i < ls.size(); i++ )
            t += ls[i] + ( i + 1 < ls.size() || nl ? "\n" : "" );
        hx::spit( "agents.txt", t );
        sx_reach( "comment" );
    }
    auto back = agents_from_file<A>( "agents.txt" );
    sx_assert( back.size() == as.size(), "number of agents" );
    return back;
}

extern "C" void sx_main()
{
    size_t n    = sx_param( 0 ) == 12 ? 12 : sx_choice( "agents", sx_param( 0 ) + 1 );
    auto number = [&]( const std::string & s ) { return std::stod( s ); };
    std::vector<std::vector<std::string>> c;
    std::string head;
    switch( sx_choice( "type", 5 ) )
    {
        case 0:
        {
            std::vector<SimpleAgent> as( n );
            for( auto & a : as )
                a.data.opinion = sx_anyreal( "opinion" );
            auto b = roundTrip( as, c, head );
            sx_assert( head == "# idx_agent, opinion", "header" );
            for( size_t i = 0; i < n; i++ )
            {
                sx_same( b[i].data.opinion, as[i].data.opinion, "opinion" );
                sx_same( number( c[i].at( 1 ) ), as[i].data.opinion, "opinion column" );
                sx_same( number( opinion_to_string( as[i] ) ), as[i].data.opinion, "opinion text" );
            }
            sx_reach( "simple" );
            break;
        }
        case 1:
        {
            std::vector<ActivityAgent> as( n );
            for( auto & a : as )
                a.data = { sx_anyreal( "opinion" ), sx_anyreal( "activity" ), sx_anyreal( "reluctance" ) };
            auto b = roundTrip( as, c, head );
            sx_assert( head == "# idx_agent, opinion, activity, reluctance", "header" );
            for( size_t i = 0; i < n; i++ )
            {
                sx_same( b[i].data.opinion, as[i].data.opinion, "opinion" );
                sx_same( b[i].data.activity, as[i].data.activity, "activity" );
                sx_same( b[i].data.reluctance, as[i].data.reluctance, "reluctance" );
                sx_same( number( c[i].at( 1 ) ), as[i].data.opinion, "opinion column" );
                sx_same( number( c[i].at( 2 ) ), as[i].data.activity, "activity column" );
                sx_same( number( c[i].at( 3 ) ), as[i].data.reluctance, "reluctance column" );
                sx_same( number( opinion_to_string( as[i] ) ), as[i].data.opinion, "opinion text" );
            }
            sx_reach( "activity" );
            break;
        }
        case 2:
        {
            std::vector<InertialAgent> as( n );
            for( auto & a : as )
            {
                a.data.opinion    = sx_anyreal( "opinion" );
                a.data.velocity   = sx_anyreal( "velocity" );
                a.data.activity   = sx_anyreal( "activity" );
                a.data.reluctance = sx_anyreal( "reluctance" );
            }
            auto b = roundTrip( as, c, head );
            sx_assert( head == "# idx_agent, opinion, velocity, activity, reluctance", "header" );
            for( size_t i = 0; i < n; i++ )
            {
                sx_same( b[i].data.opinion, as[i].data.opinion, "opinion" );
                sx_same( b[i].data.velocity, as[i].data.velocity, "velocity" );
                sx_same( b[i].data.activity, as[i].data.activity, "activity" );
                sx_same( b[i].data.reluctance, as[i].data.reluctance, "reluctance" );
                sx_same( number( c[i].at( 1 ) ), as[i].data.opinion, "opinion column" );
                sx_same( number( c[i].at( 2 ) ), as[i].data.velocity, "velocity column" );
                sx_same( number( c[i].at( 3 ) ), as[i].data.activity, "activity column" );
                sx_same( number( c[i].at( 4 ) ), as[i].data.reluctance, "reluctance column" );
                sx_same( number( opinion_to_string( as[i] ) ), as[i].data.opinion, "opinion text" );
            }
            sx_reach( "inertial" );
            break;
        }
        case 3:
        {
            std::vector<DiscreteVectorAgent> as( n );
            size_t dim          = 1 + sx_choice( "dim", 3 );
            const int values[5] = { 0, 1, -1, 2147483647, -2147483647 - 1 };
            bool wild           = sx_choice( "wild", 2 );
            for( size_t i = 0; i < n; i++ )
                for( size_t k = 0; k < dim; k++ )
                    as[i].data.opinion.push_back( wild ? values[( 2 * i + 3 * k ) % 5] : i < 2 ? sx_choice( "component", 2 ) : 1 );
            auto b = roundTrip( as, c, head );
            for( size_t i = 0; i < n; i++ )
            {
                sx_assert( b[i].data.opinion == as[i].data.opinion, "opinion vector" );
                sx_assert( c[i].size() == dim + 1, "one column per component" );
                for( size_t k = 0; k < dim; k++ )
                    sx_assert( c[i][k + 1] == std::to_string( as[i].data.opinion[k] ), "component column" );
            }
            sx_reach( "discrete" );
            break;
        }
        case 4: // written by hand: spacing, comments, missing columns
        {
            double o = sx_anyreal( "opinion" ), a = sx_anyreal( "activity" ), v = sx_anyreal( "velocity" );
            char buf[200];
            auto num = [&]( double x ) { return fmt::format( "{}", x ); };
            (void)buf;
            std::string sp = sx_choice( "spaces", 2 ) ? "   " : "";
            hx::spit( "a.txt", "# c\n0," + sp + num( o ) + "," + sp + num( a ) + "\n#x\n1," + sp + num( a ) + "," + num( o ) + sp );
            auto b = agents_from_file<ActivityAgent>( "a.txt" );
            sx_assert( b.size() == 2, "comments are skipped" );
            sx_same( b[0].data.opinion, o, "opinion" );
            sx_same( b[0].data.activity, a, "activity" );
            sx_same( b[0].data.reluctance, 1.0, "default reluctance" );
            sx_same( b[1].data.opinion, a, "opinion" );
            sx_same( b[1].data.activity, o, "activity" );
            sx_same( b[1].data.reluctance, 1.0, "default reluctance" );
            hx::spit( "r.txt", "0," + sp + num( o ) + "," + sp + num( a ) + "," + sp + num( v ) + "\n" );
            b = agents_from_file<ActivityAgent>( "r.txt" );
            sx_assert( b.size() == 1, "one agent" );
            sx_same( b[0].data.opinion, o, "opinion" );
            sx_same( b[0].data.activity, a, "activity" );
            sx_same( b[0].data.reluctance, v, "reluctance" );
            hx::spit( "i.txt", "# c\n0," + sp + num( o ) + "," + sp + num( v ) + "," + num( a ) + "\n" );
            auto i = agents_from_file<InertialAgent>( "i.txt" );
            sx_assert( i.size() == 1, "comments are skipped" );
            sx_same( i[0].data.opinion, o, "opinion" );
            sx_same( i[0].data.velocity, v, "velocity" );
            sx_same( i[0].data.activity, a, "activity" );
            sx_same( i[0].data.reluctance, 1.0, "default reluctance" );
            hx::spit( "i.txt", "0," + sp + num( o ) + "," + sp + num( v ) + "," + sp + num( a ) + "," + sp + num( v ) );
            i = agents_from_file<InertialAgent>( "i.txt" );
            sx_assert( i.size() == 1, "one agent" );
            sx_same( i[0].data.opinion, o, "opinion" );
            sx_same( i[0].data.velocity, v, "velocity" );
            sx_same( i[0].data.activity, a, "activity" );
            sx_same( i[0].data.reluctance, v, "reluctance" );
            hx::spit( "s.txt", "0," + sp + num( o ) + "\n1," + num( v ) );
            auto s = agents_from_file<SimpleAgent>( "s.txt" );
            sx_assert( s.size() == 2, "two agents" );
            sx_same( s[0].data.opinion, o, "opinion" );
            sx_same( s[1].data.opinion, v, "opinion" );
            hx::spit( "d.txt", "0," + sp + "17," + sp + "-3," + sp + "205\n" );
            auto d = agents_from_file<DiscreteVectorAgent>( "d.txt" );
            sx_assert( d.size() == 1 && d[0].data.opinion == std::vector<int>( { 17, -3, 205 } ), "opinion vector" );
            sx_reach( "missing" );
            break;
        }
    }
}
