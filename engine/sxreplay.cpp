// Replay runtime: runs a harness natively with the values the solver found.
// Exit status 0: nothing failed, 1: the claim was violated, 2: an assumption
// did not hold for these (rounded) values.
#include "sx.h"
#include "sx_env.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>

static std::vector<long> params;
static std::map<std::string, std::string> vals; // "kind name" -> text
static std::map<std::string, int> nameCount;

extern "C" const char * __asan_default_options()
{
    return "detect_leaks=0:exitcode=1:malloc_fill_byte=190:max_malloc_fill_size=65536:alloc_dealloc_mismatch=0:"
           "detect_odr_violation=0:hard_rss_limit_mb=6000:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
extern "C" const char * __ubsan_default_options()
{
    return "halt_on_error=1:print_stacktrace=1:exitcode=1";
}
static std::string uniq( const char * name )
{
    int n = nameCount[name]++;
    return n ? std::string( name ) + "#" + std::to_string( n ) : name;
}
static bool look( const std::string & k, std::string & v )
{
    auto it = vals.find( k );
    if( it == vals.end() )
        return false;
    v = it->second;
    return true;
}
static void violated( const char * msg )
{
    fprintf( stderr, "REPLAY: violated: %s\n", msg );
    fflush( nullptr );
    _exit( 1 );
}
extern "C"
{
    uint64_t sx_range( const char * name, uint64_t lo, uint64_t )
    {
        std::string v;
        return look( "b " + uniq( name ), v ) ? std::stoull( v ) : lo;
    }
    int64_t sx_lrange( const char * name, int64_t lo, int64_t hi )
    {
        return (int64_t)sx_range( name, lo, hi );
    }
    int32_t sx_irange( const char * name, int32_t lo, int32_t hi )
    {
        return (int32_t)sx_range( name, lo, hi );
    }
    unsigned char sx_byte( const char * name )
    {
        return (unsigned char)sx_range( name, 0, 255 );
    }
    double sx_real( const char * name, double lo, double hi )
    {
        std::string v;
        return look( "r " + uniq( name ), v ) ? strtod( v.c_str(), nullptr ) : ( lo + hi ) / 2;
    }
    double sx_anyreal( const char * name )
    {
        return sx_real( name, 0, 1 );
    }
    int sx_choice( const char * name, int )
    {
        std::string v;
        return look( "c " + uniq( name ), v ) ? std::stoi( v ) : 0;
    }
    long sx_param( int i )
    {
        return i < (int)params.size() ? params[i] : 0;
    }
    void sx_option( const char *, long ) {}
    bool sx_issym( double )
    {
        return false;
    }
    uint64_t sx_conc( uint64_t x )
    {
        return x;
    }
    void sx_assume( bool c )
    {
        if( !c )
        {
            fprintf( stderr, "REPLAY: assumption does not hold\n" );
            _exit( 2 );
        }
    }
    void sx_assert_( bool c, const char * msg )
    {
        if( !c )
            violated( msg );
    }
    void sx_fail( const char * msg )
    {
        violated( msg );
    }
    void sx_reach( const char * ) {}
    void sx_outcome( const char * group, const char * outcome, long, long )
    {
        fprintf( stderr, "REPLAY: outcome %s\t%s\n", group, outcome );
    }
    static void bad( double a, double b, const char * msg )
    {
        char buf[4096];
        snprintf( buf, sizeof buf, "%s: %.17g versus %.17g", msg, a, b );
        violated( buf );
    }
    void sx_close_( double a, double b, double tol, const char * msg )
    {
        if( std::isnan( a ) && std::isnan( b ) )
            return;
        if( a == b )
            return;
        // floating point rounding is not what the claim is about
        double slack = 1e-9 * std::fmax( 1.0, std::fmax( std::fabs( a ), std::fabs( b ) ) );
        if( !( std::fabs( a - b ) <= tol + slack ) )
            bad( a, b, msg );
    }
    void sx_same_( double a, double b, const char * msg )
    {
        if( std::isnan( a ) && std::isnan( b ) )
            return;
        if( !( a == b ) )
            bad( a, b, msg );
    }
    void sx_le_( double a, double b, double tol, const char * msg )
    {
        double slack = 1e-9 * std::fmax( 1.0, std::fmax( std::fabs( a ), std::fabs( b ) ) );
        if( !( a <= b + tol + slack ) )
            bad( a, b, msg );
    }
    void sx_any_( const double * a, const double * b, const bool * orEqual, size_t n, const char * msg )
    {
        for( size_t i = 0; i < n; i++ )
            if( orEqual[i] ? a[i] <= b[i] : a[i] < b[i] )
                return;
        violated( msg );
    }
    static std::string key( char k, uint64_t s, uint64_t c )
    {
        return std::string( 1, k ) + " " + std::to_string( s ) + ":" + std::to_string( c );
    }
    // draws the solver says nothing about: any values, different for every seed
    static uint64_t hashed( uint64_t s, uint64_t c )
    {
        static const uint64_t salt = [] {
            std::string v;
            return look( "b salt", v ) ? std::stoull( v ) : 0;
        }();
        s += salt << 32;
        uint64_t x = s * 0x9e3779b97f4a7c15ull + c * 0xbf58476d1ce4e5b9ull + 1;
        x ^= x >> 31, x *= 0x94d049bb133111ebull, x ^= x >> 29, x *= 0xbf58476d1ce4e5b9ull, x ^= x >> 32;
        return x;
    }
    double sx_draw_u01( uint64_t seed, uint64_t ctr )
    {
        std::string v;
        return look( key( 'u', seed, ctr ), v ) ? strtod( v.c_str(), nullptr ) : ( hashed( seed, ctr ) % 1021 + 1 ) / 1024.;
    }
    double sx_draw_normal( uint64_t seed, uint64_t ctr )
    {
        std::string v;
        return look( key( 'n', seed, ctr ), v ) ? strtod( v.c_str(), nullptr ) : ( double( hashed( seed, ctr ) % 1021 ) - 510 ) / 256.;
    }
    uint64_t sx_draw_int( uint64_t seed, uint64_t ctr, uint64_t lo, uint64_t hi )
    {
        if( lo > hi )
            violated( "an integer is drawn from an empty range" );
        if( lo == hi )
            return lo;
        std::string v;
        uint64_t x = look( key( 'i', seed, ctr ), v ) ? std::stoull( v ) : lo + hashed( seed, ctr ) % ( hi - lo + 1 ? hi - lo + 1 : ~0ull );
        return x < lo || x > hi ? lo : x;
    }
    int64_t sx_draw_sint( uint64_t seed, uint64_t ctr, int64_t lo, int64_t hi )
    {
        if( lo > hi )
            violated( "an integer is drawn from an empty range" );
        if( lo == hi )
            return lo;
        std::string v;
        int64_t x = look( key( 'i', seed, ctr ), v ) ? (int64_t)std::stoull( v ) : int64_t( lo + hashed( seed, ctr ) % ( uint64_t( hi ) - lo + 1 ? uint64_t( hi ) - lo + 1 : ~0ull ) );
        return x < lo || x > hi ? lo : x;
    }
    uint32_t sx_draw_raw( uint64_t seed, uint64_t ctr )
    {
        std::string v;
        return look( key( 'w', seed, ctr ), v ) ? std::stoul( v ) : uint32_t( hashed( seed, ctr ) );
    }
}
void * operator new( size_t n )
{
    if( n > ( 1ull << 30 ) )
        throw std::bad_alloc();
    void * p = malloc( n ? n : 1 );
    if( !p )
        throw std::bad_alloc();
    return p;
}
void * operator new[]( size_t n )
{
    return operator new( n );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}
int main( int argc, char ** argv )
{
    // sxreplay VALUES [params...]; run in an empty scratch directory
    std::ifstream in( argv[1] );
    std::string line;
    while( std::getline( in, line ) )
    {
        if( line.empty() || line[0] == '#' )
            continue;
        // kind, name (may contain spaces), value, " # " comment
        line        = line.substr( 0, line.find( " # " ) );
        size_t last = line.rfind( ' ' );
        if( last != std::string::npos )
            vals[line.substr( 0, last )] = line.substr( last + 1 );
    }
    for( int i = 2; i < argc; i++ )
        params.push_back( std::stol( argv[i] ) );
    rlimit cpu = { 15, 15 }; // what runs longer is taken not to terminate
    setrlimit( RLIMIT_CPU, &cpu );
    try
    {
        sx_main();
    }
    catch( std::exception & e )
    {
        violated( e.what() );
    }
    catch( ... )
    {
        violated( "unexpected exception" );
    }
    fprintf( stderr, "REPLAY: nothing failed\n" );
    fflush( nullptr );
    _exit( 0 );
}
