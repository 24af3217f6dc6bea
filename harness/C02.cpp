// C02: every documented key reaches its own setting and only that one.
//@ src: src/config_parser.cpp src/util/tomlplusplus.cpp
//@ bound: every model; all keys present, all absent, each key alone and each key alone missing; every value of every key (reals in [-1000, 1000], non-negative integers, both booleans; reals also given as one integer each); bot lists of two values, with all keys present of up to three values with integers among them
//@ assume: the order of the keys inside the file is fixed
//@ outside: other combinations of present keys, values of the wrong type
//@ run quick: 0
//@ run quick: 1
//@ run quick: 2
//@ run quick: 3
//@ run quick: 4
//@ reach: all none only without badmodel nomodel malformed missingfile integer
#include "io.hpp"
#include "config_parser.hpp"
#include <functional>
#include <map>
using namespace Seldon::Config;

struct Key
{
    std::string table, name;
    char type; // r real, i int, z size, b bool, R list of reals, I list of ints
    std::function<void( bool present, const Key & )> check;
    std::string text;
    double r = 0;
    int i = 0;
    std::vector<double> rs;
    std::vector<int> is;
    size_t z = 0;
    bool b = false, present = false;
};
static std::vector<Key> keys;
static SimulationOptions * options = nullptr;
#define opt ( *options )

template<typename T>
static void close( T v, double want, const std::string & k )
{
    sx_close_( v, want, 1e-12, k.c_str() );
}
static void key( const std::string & table, const std::string & name, char type,
                 std::function<void( bool, const Key & )> check )
{
    keys.push_back( { table, name, type, check } );
}
// a key whose setting is found by get()
template<typename F>
static void real( const std::string & t, const std::string & n, F get, double dflt )
{
    key( t, n, 'r', [=]( bool p, const Key & k ) {
        if( p )
            sx_same_( get(), k.r, ( n + " is read" ).c_str() );
        else
            sx_close_( get(), dflt, 1e-12, ( n + " has its default" ).c_str() );
    } );
}
template<typename F>
static void integer( const std::string & t, const std::string & n, F get, int dflt )
{
    key( t, n, 'i', [=]( bool p, const Key & k ) { sx_assert_( get() == ( p ? k.i : dflt ), n.c_str() ); } );
}
template<typename F>
static void size( const std::string & t, const std::string & n, F get, size_t dflt )
{
    key( t, n, 'z', [=]( bool p, const Key & k ) { sx_assert_( get() == ( p ? k.z : dflt ), n.c_str() ); } );
}
template<typename F>
static void optional( const std::string & t, const std::string & n, char type, F get )
{
    key( t, n, type, [=]( bool p, const Key & k ) {
        sx_assert_( get().has_value() == p, ( n + " is set exactly if present" ).c_str() );
        if( p && type == 'z' )
            sx_assert_( get().value() == k.z, n.c_str() );
        if( p && type == 'i' )
            sx_assert_( get().value() == k.i, n.c_str() );
    } );
}
template<typename F>
static void boolean( const std::string & t, const std::string & n, F get, bool dflt )
{
    key( t, n, 'b', [=]( bool p, const Key & k ) { sx_assert_( get() == ( p ? k.b : dflt ), n.c_str() ); } );
}
static Key & find( const std::string & n )
{
    for( auto & k : keys )
        if( k.name == n )
            return k;
    sx_fail( "no such key" );
    return keys[0];
}

template<typename S>
static void activityKeys( const std::string & t )
{
    auto s = []() -> S & { return std::get<S>( opt.model_settings ); };
#define SET( m ) [=]() { return s().m; }
    real( t, "dt", SET( dt ), 0.01 );
    integer( t, "m", SET( m ), 10 );
    real( t, "eps", SET( eps ), 0.01 );
    real( t, "gamma", SET( gamma ), 2.1 );
    real( t, "homophily", SET( homophily ), 0.5 );
    real( t, "reciprocity", SET( reciprocity ), 0.5 );
    real( t, "alpha", SET( alpha ), 3.0 );
    real( t, "K", SET( K ), 3.0 );
    boolean( t, "mean_activities", SET( mean_activities ), false );
    boolean( t, "mean_weights", SET( mean_weights ), false );
    real( t, "covariance_factor", SET( covariance_factor ), 0.0 );
    boolean( t, "reluctances", SET( use_reluctances ), false );
    real( t, "reluctance_mean", SET( reluctance_mean ), 1.0 );
    real( t, "reluctance_sigma", SET( reluctance_sigma ), 0.25 );
    real( t, "reluctance_eps", SET( reluctance_eps ), 0.01 );
    optional( "model", "max_iterations", 'i', SET( max_iterations ) );
    size( t, "n_bots", SET( n_bots ), 0 );
    auto list = [=]( const std::string & n, auto get, auto dflt )
    {
        key( t, n, 'R', [=]( bool p, const Key & k ) {
            auto l = get();
            if( p )
            {
                sx_assert_( l.size() == k.rs.size(), ( n + " has as many entries as listed" ).c_str() );
                for( size_t e = 0; e < l.size(); e++ )
                    sx_same_( l[e], k.rs[e], n.c_str() );
            }
            else
            {
                sx_assert_( l.size() == s().n_bots, ( n + " has one entry per bot" ).c_str() );
                for( auto x : l )
                    sx_close_( x, dflt(), 1e-12, ( n + " has its default" ).c_str() );
            }
        } );
    };
    list( "bot_opinion", SET( bot_opinion ), []() { return 0.0; } );
    list( "bot_activity", SET( bot_activity ), []() { return 1.0; } );
    list( "bot_homophily", SET( bot_homophily ), SET( homophily ) );
    key( t, "bot_m", 'I', [=]( bool p, const Key & k ) {
        auto l = s().bot_m;
        if( p )
        {
            sx_assert( l.size() == k.is.size(), "bot_m has as many entries as listed" );
            for( size_t e = 0; e < l.size(); e++ )
                sx_assert( l[e] == k.is[e], "bot_m" );
        }
        else
        {
            sx_assert( l.size() == s().n_bots, "bot_m has one entry per bot" );
            for( auto x : l )
                sx_assert( x == s().m, "bot_m has its default" );
        }
    } );
}

static bool throws( const std::string & file )
{
    try
    {
        parse_config_file( file );
    }
    catch( const std::exception & )
    {
        return true;
    }
    return false;
}

extern "C" void sx_main()
{
    options = new SimulationOptions;
    std::string model;
    switch( sx_param( 0 ) )
    {
        case 0:
            model = "DeGroot";
            optional( "model", "max_iterations", 'i',
                      []() { return std::get<DeGrootSettings>( opt.model_settings ).max_iterations; } );
            real( model, "convergence",
                  []() { return std::get<DeGrootSettings>( opt.model_settings ).convergence_tol; }, 1e-6 );
            break;
        case 1: {
            model  = "Deffuant";
            auto s = []() -> DeffuantSettings & { return std::get<DeffuantSettings>( opt.model_settings ); };
            optional( "model", "max_iterations", 'i', SET( max_iterations ) );
            real( model, "homophily_threshold", SET( homophily_threshold ), 0.2 );
            real( model, "mu", SET( mu ), 0.5 );
            boolean( model, "use_network", SET( use_network ), false );
            boolean( model, "binary_vector", SET( use_binary_vector ), false );
            size( model, "dim", SET( dim ), 1 );
            break;
        }
        case 2:
            model = "ActivityDriven";
            activityKeys<ActivityDrivenSettings>( model );
            break;
        case 3:
            model = "ActivityDrivenInertial";
            activityKeys<ActivityDrivenInertialSettings>( model );
            real( model, "friction_coefficient",
                  []() { return std::get<ActivityDrivenInertialSettings>( opt.model_settings ).friction_coefficient; },
                  1.0 );
            break;
        default:
            switch( sx_choice( "what", 5 ) )
            {
                case 0:
                    hx::spit( "c.toml", "[simulation]\nmodel = \"Voter\"\nrng_seed = 1\n" );
                    sx_assert( throws( "c.toml" ), "an unknown model is rejected" );
                    sx_reach( "badmodel" );
                    break;
                case 1:
                    hx::spit( "c.toml", "[simulation]\nrng_seed = 1\n[model]\nmax_iterations = 3\n" );
                    sx_assert( throws( "c.toml" ), "a missing model is rejected" );
                    sx_reach( "nomodel" );
                    break;
                case 2:
                    hx::spit( "c.toml", "[simulation\nmodel = \"DeGroot\"\n" );
                    sx_assert( throws( "c.toml" ), "malformed files are rejected" );
                    sx_reach( "malformed" );
                    break;
                case 3:
                    sx_assert( throws( "none.toml" ), "missing files are rejected" );
                    sx_reach( "missingfile" );
                    break;
                default: {
                    // every model's settings pass validation when only the model is given
                    const char * ms[] = { "DeGroot", "Deffuant", "ActivityDriven", "ActivityDrivenInertial" };
                    hx::spit( "c.toml",
                              std::string( "[simulation]\nmodel = \"" ) + ms[sx_choice( "model", 4 )] + "\"\nrng_seed = 7\n" );
                    auto o = parse_config_file( "c.toml" );
                    sx_assert( o.rng_seed == 7, "seed" );
                    validate_settings( o );
                }
            }
            return;
    }
    // the tables all models share
    optional( "io", "n_output_agents", 'z', []() { return opt.output_settings.n_output_agents; } );
    optional( "io", "n_output_network", 'z', []() { return opt.output_settings.n_output_network; } );
    boolean( "io", "print_progress", []() { return opt.output_settings.print_progress; }, false );
    boolean( "io", "output_initial", []() { return opt.output_settings.output_initial; }, true );
    size( "io", "start_output", []() { return opt.output_settings.start_output; }, 1 );
    size( "io", "start_numbering_from", []() { return opt.output_settings.start_numbering_from; }, 0 );
    size( "network", "number_of_agents", []() { return opt.network_settings.n_agents; }, 200 );
    size( "network", "connections_per_agent", []() { return opt.network_settings.n_connections; }, 10 );
    key( "simulation", "rng_seed", 'i', []( bool p, const Key & k ) {
        if( p )
            sx_assert( opt.rng_seed == k.i, "rng_seed" );
    } );

    // 0: all, 1: none, then each key alone and each key alone missing
    size_t n    = keys.size();
    size_t mode = sx_choice( "mode", 2 + 2 * n );
    bool flag   = mode < 2 && sx_choice( "flag", 2 );
    // the bot lists: how long, and which of their entries are given as integers
    bool lists    = mode == 0 && sx_param( 0 ) >= 2;
    size_t length = lists ? sx_choice( "list length", 4 ) : 2;
    int form      = lists && length ? sx_choice( "list form", 4 ) : 0;
    std::map<std::string, std::string> tables;
    for( size_t k = 0; k < n; k++ )
    {
        auto & y  = keys[k];
        y.present = mode == 0 || ( mode > 1 && ( mode - 2 ) / 2 == k ) != ( mode > 1 && mode % 2 );
        if( mode == 1 )
            y.present = false;
        if( !y.present )
            continue;
        switch( y.type )
        {
            case 'r':
                // also an integer where a real number is expected
                if( mode == 0 && flag )
                {
                    y.i    = 3 + 2 * k; // a different one for each
                    y.r    = y.i;
                    y.text = fmt::format( "{}", y.i );
                    sx_reach( "integer" );
                }
                else
                {
                    y.r    = sx_real( y.name.c_str(), -1000, 1000 );
                    y.text = fmt::format( "{}", y.r );
                }
                break;
            case 'R':
            case 'I':
                for( size_t e = 0; e < length; e++ )
                {
                    if( y.type == 'I' )
                        y.is.push_back( sx_irange( y.name.c_str(), 0, INT32_MAX ) );
                    else if( form >> e % 2 & 1 ) // a real number given as an integer
                        y.rs.push_back( 3 + 2 * k + 100 * e );
                    else
                        y.rs.push_back( sx_real( y.name.c_str(), -1000, 1000 ) );
                    y.text += e ? ", " : "[";
                    y.text += y.type == 'I'        ? fmt::format( "{}", y.is[e] )
                              : form >> e % 2 & 1 ? fmt::format( "{}", int( 3 + 2 * k + 100 * e ) )
                                                   : fmt::format( "{}", y.rs[e] );
                }
                y.text += length ? "]" : "[]";
                break;
            case 'i':
                y.i    = sx_irange( y.name.c_str(), 0, INT32_MAX );
                y.text = fmt::format( "{}", y.i );
                break;
            case 'z':
                if( y.name == "n_bots" ) // the default lists are as long
                    y.z = 2;
                else
                    y.z = sx_range( y.name.c_str(), 0, INT64_MAX );
                y.text = fmt::format( "{}", y.z );
                break;
            case 'b':
                y.b    = mode < 2 ? flag : sx_choice( y.name.c_str(), mode % 2 ? 1 : 2 );
                y.text = y.b ? "true" : "false";
        }
        tables[y.table] += y.name + " = " + y.text + "\n";
    }
    tables["simulation"] += "model = \"" + model + "\"\n";
    // settings of other models do not matter
    tables["SomethingElse"] += "dt = 77.5\nmu = 77.5\nconvergence = 77.5\n";
    std::string text;
    for( auto & [t, body] : tables )
        text += "[" + t + "]\n" + body;
    hx::spit( "conf.toml", text );
    opt = parse_config_file( "conf.toml" );
    sx_assert( opt.model_string == model, "model" );
    for( auto & y : keys )
        y.check( y.present, y );
    sx_reach( mode == 0 ? "all" : mode == 1 ? "none" : mode % 2 ? "without" : "only" );
}
