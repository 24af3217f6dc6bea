// The interface harnesses use.  The same harness is compiled twice: once
// instrumented against the symbolic runtime (sxrt.cpp) and once as an
// ordinary program against the replay runtime (sxreplay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
    // ---- inputs
    uint64_t sx_range( const char * name, uint64_t lo, uint64_t hi );      // 64 bit, lo <= x <= hi (unsigned)
    int32_t sx_irange( const char * name, int32_t lo, int32_t hi );        // 32 bit, signed
    int64_t sx_lrange( const char * name, int64_t lo, int64_t hi );        // 64 bit, signed
    double sx_real( const char * name, double lo, double hi );             // any real in [lo, hi]
    double sx_anyreal( const char * name );                                // any real
    unsigned char sx_byte( const char * name );                            // any byte
    int sx_choice( const char * name, int n );                             // forks immediately: 0..n-1
    long sx_param( int i );                                                // bounds passed on the command line
    // ---- claims
    void sx_assume( bool c );
    void sx_assert_( bool c, const char * msg );
    void sx_close_( double a, double b, double tol, const char * msg );    // |a-b| <= tol * (1+scale)
    void sx_same_( double a, double b, const char * msg );                 // exactly the same value
    void sx_le_( double a, double b, double tol, const char * msg );       // a <= b + tol
    // for some i: a[i] < b[i] (or <= where orEqual); does not split the path
    void sx_any_( const double * a, const double * b, const bool * orEqual, size_t n, const char * msg );
    void sx_reach( const char * mark );                                    // vacuity witness
    void sx_fail( const char * msg );
    // in this group of paths, the draws lead to this outcome with probability num/den
    void sx_outcome( const char * group, const char * outcome, long num, long den );
    double sx_ufn( const char * f, double a );                             // unspecified function (symbolic build only)
    bool sx_issym( double x );
    uint64_t sx_conc( uint64_t x );
    void sx_option( const char * name, long value );
    // ---- randomness (used by sx_shim.hpp)
    double sx_draw_u01( uint64_t seed, uint64_t ctr );
    double sx_draw_normal( uint64_t seed, uint64_t ctr );
    uint64_t sx_draw_int( uint64_t seed, uint64_t ctr, uint64_t lo, uint64_t hi );
    int64_t sx_draw_sint( uint64_t seed, uint64_t ctr, int64_t lo, int64_t hi );
    uint32_t sx_draw_raw( uint64_t seed, uint64_t ctr );
    void sx_main();
}
#define sx_str2( x ) #x
#define sx_str( x ) sx_str2( x )
#define sx_assert( c, msg ) sx_assert_( ( c ), msg " (harness line " sx_str( __LINE__ ) ")" )
#define sx_close( a, b, tol, msg ) sx_close_( ( a ), ( b ), ( tol ), msg " (harness line " sx_str( __LINE__ ) ")" )
#define sx_same( a, b, msg ) sx_same_( ( a ), ( b ), msg " (harness line " sx_str( __LINE__ ) ")" )
#define sx_le( a, b, tol, msg ) sx_le_( ( a ), ( b ), ( tol ), msg " (harness line " sx_str( __LINE__ ) ")" )
#ifdef __cplusplus
#include <vector>
// collects comparisons of which at least one has to hold
struct SxAny
{
    std::vector<double> a, b;
    std::vector<unsigned char> e;
    void lt( double x, double y )
    {
        a.push_back( x ), b.push_back( y ), e.push_back( 0 );
    }
    void le( double x, double y )
    {
        a.push_back( x ), b.push_back( y ), e.push_back( 1 );
    }
    void claim( const char * msg )
    {
        sx_any_( a.data(), b.data(), (const bool *)e.data(), a.size(), msg );
    }
};
#endif
