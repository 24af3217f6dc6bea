// The symbolic runtime.  Instrumented code (see sxinst.cpp) calls into this
// file for every operation; operations on concrete values are done natively,
// operations on handles build expressions, and every branch that depends on
// an expression is decided by z3: if both outcomes are possible the other one
// is handed to the coordinator, which runs it as a path of its own.
#include "poly.hpp"
#include "sx.h"
#define SX_RENAMED
#include "sx_env.hpp"
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <ftw.h>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
static double now()
{
    timespec t;
    clock_gettime( CLOCK_MONOTONIC, &t );
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ------------------------------------------------------------- configuration
static std::vector<long> g_params;
static int g_jobs          = 4;
static double g_time       = 300;
static long g_maxpaths     = 200000;
static long g_qtimeout     = 10000; // ms per solver query
static double g_pathtime   = 120;
static u64 g_steplimit     = 200000000ull;
static unsigned g_seed     = 1;
static long opt_termination = 1, opt_openu = 1, opt_mono = 1, opt_maxenum = 300, opt_maxviol = 3;

// ------------------------------------------------------------- channel to the coordinator
static int g_fd = -1;
static bool g_in_engine = false;
static void sendMsg( char t, const std::string & s )
{
    std::string b( 1, t );
    u32 n = s.size();
    b.append( (char *)&n, 4 );
    b += s;
    size_t o = 0;
    while( o < b.size() )
    {
        ssize_t r = write( g_fd, b.data() + o, b.size() - o );
        if( r <= 0 )
            _exit( 77 );
        o += r;
    }
}
struct Stats
{
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, trivial = 0, asserts = 0, forks = 0, steps = 0;
    double solver = 0;
} st;
static void endPath( const char * how )
{
    std::ostringstream o;
    o << how << ' ' << st.queries << ' ' << st.sat << ' ' << st.unsat << ' ' << st.unknown << ' ' << st.trivial << ' '
      << st.asserts << ' ' << st.forks << ' ' << st.solver << ' ' << st.steps;
    sendMsg( 'S', o.str() );
    _exit( 0 );
}
static void inconclusive( const std::string & m )
{
    sendMsg( 'I', m );
}
[[noreturn]] static void giveUp( const std::string & m )
{
    sendMsg( 'I', m );
    endPath( "giveup" );
    abort();
}

// ------------------------------------------------------------- z3
static Z3_context Z;
static Z3_sort zReal, zBool;
static Z3_error_code g_zerr = Z3_OK;
static void zerr( Z3_context, Z3_error_code e )
{
    g_zerr = e;
}
static Z3_ast keep( Z3_ast a )
{
    if( a )
        Z3_inc_ref( Z, a );
    return a;
}
static void initZ3()
{
    Z3_config c = Z3_mk_config();
    Z3_set_param_value( c, "model", "true" );
    Z = Z3_mk_context_rc( c );
    Z3_del_config( c );
    Z3_set_error_handler( Z, zerr );
    zReal = Z3_mk_real_sort( Z );
    Z3_inc_ref( Z, Z3_sort_to_ast( Z, zReal ) );
    zBool = Z3_mk_bool_sort( Z );
    Z3_inc_ref( Z, Z3_sort_to_ast( Z, zBool ) );
}
static Z3_ast zvar( const std::string & n, Z3_sort s )
{
    return keep( Z3_mk_const( Z, Z3_mk_string_symbol( Z, n.c_str() ), s ) );
}
static Z3_ast zrat( const Rat & r )
{
    return keep( Z3_mk_numeral( Z, r.get_str().c_str(), zReal ) );
}
static void setTimeout( Z3_solver s, unsigned ms )
{
    Z3_params p = Z3_mk_params( Z );
    Z3_params_inc_ref( Z, p );
    Z3_params_set_uint( Z, p, Z3_mk_string_symbol( Z, "timeout" ), ms );
    Z3_solver_set_params( Z, s, p );
    Z3_params_dec_ref( Z, p );
}

// ------------------------------------------------------------- inputs (for replay)
struct Input
{
    u64 lo = 0, hi = 0; // integer draws from a concrete range
    std::string name;
    char kind; // r real, b bit vector, c choice, u/n/i/w draws
    int atom = -1;
    Z3_ast bv = nullptr;
    u64 val   = 0;
    bool sgn  = false;
    u64 seed = 0, ctr = 0; // draws: key
};
static std::vector<Input> inputs;
static std::map<std::string, int> nameCount;

// ------------------------------------------------------------- decisions
static std::vector<u64> prefix, taken;
static size_t cur = 0;
static bool replaying()
{
    return cur < prefix.size();
}
static void pushAlt( u64 d )
{
    std::vector<u64> a = taken;
    a.push_back( d );
    st.forks++;
    sendMsg( 'A', std::string( (char *)a.data(), a.size() * 8 ) );
}

// ------------------------------------------------------------- reals
enum Rel
{
    NEG = 1,
    ZERO = 2,
    POS = 4
};
struct Ival
{
    bool hasLo = false, hasHi = false;
    Rat lo, hi;
    bool openLo = false, openHi = false;
};
struct RC // p has one of the signs in mask
{
    Poly p;
    int mask;
    std::vector<int> atoms;
    Z3_ast z = nullptr;
};
struct Atom
{
    std::string name;
    int inv = -1; // atom is 1/invpoly[inv]
    Ival iv;
    Z3_ast z = nullptr;
    bool hasVal = false;
    Rat val;
    std::vector<int> cons;   // constraints mentioning it
    std::vector<int> links;  // z3 axioms linking it (indices into axioms)
    std::string fn;          // function symbol
    std::vector<Poly> args;
    bool subst = false;
    Poly to;
};
struct Axiom
{
    Z3_ast z;
    std::vector<int> atoms;
};
static std::deque<Atom> atoms;
static std::deque<Poly> invpoly;
static std::deque<RC> cons;
static std::deque<Axiom> axioms;
static std::deque<Poly> rtab; // handle -> value
static std::unordered_map<std::string, int> rkey, invkey, fnkey;
static std::unordered_map<std::string, int> signs;

// double handles: 0xC0BCB1AD in the upper half, scrambled id in the lower half: these have a sign, digits before and
// after the point, so that no part of their text can get lost unnoticed
static const u32 DMAGIC = 0xC0BCB1AD, DMUL = 0x9E3779B1u;
static u32 dinv()
{
    u32 x = DMUL;
    for( int i = 0; i < 5; i++ )
        x *= 2 - DMUL * x;
    return x;
}
static const u32 DINV = dinv();
static inline u64 bitsOf( double d )
{
    u64 u;
    memcpy( &u, &d, 8 );
    return u;
}
static inline double dblOf( u64 u )
{
    double d;
    memcpy( &d, &u, 8 );
    return d;
}
static inline int handleOf( double d )
{
    u64 u = bitsOf( d );
    if( ( u >> 32 ) != DMAGIC )
        return -1;
    u32 id = ( (u32)u ) * DINV;
    id -= 77;
    return id < rtab.size() ? (int)id : -1;
}
static inline bool isD( double d )
{
    return ( bitsOf( d ) >> 32 ) == DMAGIC && handleOf( d ) >= 0;
}
static Rat ratOf( double d )
{
    Rat r;
    mpq_set_d( r.get_mpq_t(), d );
    return r;
}
static Poly constPoly( const Rat & r )
{
    Poly p;
    if( r != 0 )
        p.t.push_back( { Mono{}, r } );
    return p;
}
static Poly atomPoly( int a, int pw = 1 )
{
    Poly p;
    Mono m;
    m.f.push_back( { a, pw } );
    p.t.push_back( { m, Rat( 1 ) } );
    return p;
}
static double ratToDouble( const Rat & r )
{
    // nearest double (mpq_get_d truncates)
    double d = mpq_get_d( r.get_mpq_t() );
    if( !std::isfinite( d ) )
        return d;
    double best = d;
    Rat e       = abs( Rat( r - ratOf( d ) ) );
    for( double c : { std::nextafter( d, INFINITY ), std::nextafter( d, -INFINITY ) } )
    {
        if( !std::isfinite( c ) )
            continue;
        Rat f = abs( Rat( r - ratOf( c ) ) );
        if( f < e )
            e = f, best = c;
    }
    return best;
}
static double mkR( const Poly & p )
{
    if( p.isConst() )
    {
        double d = ratToDouble( p.constVal() );
        if( std::isfinite( d ) && ratOf( d ) == p.constVal() )
            return d; // exactly a double
    }
    if( p.t.size() > 20000 )
        giveUp( "polynomial too large" );
    std::string k = p.key();
    auto it       = rkey.find( k );
    int id;
    if( it != rkey.end() )
        id = it->second;
    else
    {
        id = rtab.size();
        rtab.push_back( p );
        rkey[k] = id;
    }
    return dblOf( ( (u64)DMAGIC << 32 ) | (u32)( ( (u32)id + 77 ) * DMUL ) );
}
static Poly polyOf( double d )
{
    int h = handleOf( d );
    if( h >= 0 )
        return rtab[h];
    return constPoly( ratOf( d ) );
}
static Poly padd( const Poly & a, const Poly & b, const Rat & k = 1 )
{
    Poly r;
    polyAdd( r, a, b, k );
    return r;
}
static Poly scale( const Poly & a, const Rat & k )
{
    Poly r;
    if( k != 0 )
        for( auto & [m, c] : a.t )
            r.t.push_back( { m, c * k } );
    return r;
}
static Poly reduceInv( Poly p );
static Poly pmulRaw( const Poly & a, const Poly & b )
{
    Poly r;
    if( a.t.empty() || b.t.empty() )
        return r;
    if( (double)a.t.size() * b.t.size() > 4e6 )
        giveUp( "polynomial product too large" );
    polyMul( r, a, b );
    // drop zero coefficients
    std::vector<std::pair<Mono, Rat>> q;
    for( auto & x : r.t )
        if( x.second != 0 )
            q.push_back( x );
    r.t.swap( q );
    return r;
}
static bool hasInv( const Poly & p )
{
    for( auto & [m, c] : p.t )
        for( auto & [a, k] : m.f )
            if( atoms[a].inv >= 0 )
                return true;
    return false;
}
static Poly pmul( const Poly & a, const Poly & b )
{
    Poly r = pmulRaw( a, b );
    if( hasInv( r ) )
        r = reduceInv( r );
    return r;
}
static Poly ppow( const Poly & a, int n )
{
    Poly r = constPoly( 1 );
    for( int i = 0; i < n; i++ )
        r = pmul( r, a );
    return r;
}
static std::vector<int> atomsOf( const Poly & p )
{
    std::set<int> s;
    for( auto & [m, c] : p.t )
        for( auto & [a, k] : m.f )
            s.insert( a );
    return { s.begin(), s.end() };
}
// exact division p / q, if q divides p (Laurent monomials allowed)
static bool pdiv( const Poly & p, const Poly & q, Poly & out )
{
    Poly rest = p, res;
    if( q.t.empty() )
        return false;
    const auto & lt = q.t.back();
    Mono inv;
    for( auto & [a, k] : lt.first.f )
        inv.f.push_back( { a, -k } );
    size_t lim = 4 * p.t.size() + 16;
    while( !rest.t.empty() )
    {
        if( lim-- == 0 || res.t.size() > p.t.size() )
            return false;
        Poly f;
        f.t.push_back( { mulMono( rest.t.back().first, inv ), rest.t.back().second / lt.second } );
        for( auto & [a, k] : f.t[0].first.f )
            if( k < 0 && atoms[a].inv >= 0 )
                return false;
        res  = padd( res, f );
        rest = padd( rest, pmulRaw( f, q ), -1 );
        if( rest.t.size() > 4 * p.t.size() + 64 )
            return false;
    }
    out = res;
    return true;
}
// rewrite v^k * (c*q + ...) with v = 1/q where the coefficient of the highest power of v is divisible by q
static Poly reduceInv( Poly p )
{
    for( int a : atomsOf( p ) )
    {
        if( atoms[a].inv < 0 )
            continue;
        for( int guard = 0; guard < 40; guard++ )
        {
            int K = 0;
            for( auto & [m, c] : p.t )
                for( auto & [b, k] : m.f )
                    if( b == a )
                        K = std::max( K, k );
            if( K <= 0 )
                break;
            Poly top, rest;
            Mono vk;
            vk.f.push_back( { a, -K } );
            for( auto & tm : p.t )
            {
                int k = 0;
                for( auto & [b, kk] : tm.first.f )
                    if( b == a )
                        k = kk;
                if( k == K )
                    top.t.push_back( { mulMono( tm.first, vk ), tm.second } );
                else
                    rest.t.push_back( tm );
            }
            std::sort( top.t.begin(), top.t.end(), []( auto & x, auto & y ) { return x.first < y.first; } );
            const Poly & q = invpoly[atoms[a].inv];
            if( top.t.size() < q.t.size() )
                break;
            Poly d;
            if( !pdiv( top, q, d ) )
                break;
            Poly v = K > 1 ? atomPoly( a, K - 1 ) : constPoly( 1 );
            p      = padd( rest, pmulRaw( d, v ) );
        }
    }
    return p;
}
static int newAtom( const std::string & name )
{
    atoms.emplace_back();
    auto & a = atoms.back();
    a.name   = name;
    a.z      = zvar( name + "!" + std::to_string( atoms.size() ), zReal );
    return atoms.size() - 1;
}
// substitute atoms known to equal other expressions
static Poly subst( const Poly & p )
{
    bool any = false;
    for( auto & [m, c] : p.t )
        for( auto & [a, k] : m.f )
            if( atoms[a].subst )
                any = true;
    if( !any )
        return p;
    Poly r;
    for( auto & [m, c] : p.t )
    {
        Poly t = constPoly( c );
        for( auto & [a, k] : m.f )
        {
            if( atoms[a].subst && k > 0 )
                t = pmul( t, ppow( subst( atoms[a].to ), k ) );
            else
                t = pmul( t, atomPoly( a, k ) );
        }
        r = padd( r, t );
    }
    return r;
}
static bool knownPos( int a );
// multiply p by something positive such that no negative powers and no inverses remain
static Poly clear( Poly p )
{
    for( int round = 0; round < 8; round++ )
    {
        // negative powers of plain atoms
        std::map<int, int> neg;
        for( auto & [m, c] : p.t )
            for( auto & [a, k] : m.f )
                if( k < 0 )
                    neg[a] = std::max( neg[a], -k );
        for( auto & [a, k] : neg )
        {
            int e = ( k % 2 && !knownPos( a ) ) ? k + 1 : k;
            p     = pmulRaw( p, atomPoly( a, e ) );
        }
        int v = -1;
        for( int a : atomsOf( p ) )
            if( atoms[a].inv >= 0 )
                v = std::max( v, a );
        if( v < 0 )
            return p;
        const Poly & q = invpoly[atoms[v].inv];
        int K          = 0;
        for( auto & [m, c] : p.t )
            for( auto & [a, k] : m.f )
                if( a == v )
                    K = std::max( K, k );
        int e = K;
        if( K % 2 && !knownPos( v ) )
            e = K + 1;
        Poly r;
        std::map<int, Poly> byk;
        for( auto & tm : p.t )
        {
            int k = 0;
            Mono m;
            for( auto & x : tm.first.f )
                if( x.first == v )
                    k = x.second;
                else
                    m.f.push_back( x );
            byk[k].t.push_back( { m, tm.second } );
        }
        for( auto & [k, d] : byk )
        {
            std::sort( d.t.begin(), d.t.end(), []( auto & x, auto & y ) { return x.first < y.first; } );
            Poly f = constPoly( 1 );
            for( int i = 0; i < e - k; i++ )
                f = pmulRaw( f, q );
            r = padd( r, pmulRaw( d, f ) );
        }
        p = r;
    }
    return p;
}
static Ival ivOf( const Poly & p );
static bool knownPos( int a )
{
    auto & A = atoms[a];
    if( A.iv.hasLo && ( A.iv.lo > 0 || ( A.iv.lo == 0 && A.iv.openLo ) ) )
        return true;
    if( A.inv >= 0 )
    {
        Poly q = invpoly[A.inv];
        std::string k = q.key();
        auto it = signs.find( k );
        if( it != signs.end() && it->second == POS )
            return true;
        Ival i = ivOf( q );
        return i.hasLo && ( i.lo > 0 || ( i.lo == 0 && i.openLo ) );
    }
    auto it = signs.find( atomPoly( a ).key() );
    return it != signs.end() && it->second == POS;
}
static Ival imul( const Ival & a, const Ival & b )
{
    Ival r;
    // only handle the common cases: both non-negative, or both bounded
    auto nn = []( const Ival & x ) { return x.hasLo && x.lo >= 0; };
    if( nn( a ) && nn( b ) )
    {
        r.hasLo  = true;
        r.lo     = a.lo * b.lo;
        r.openLo = ( a.openLo && ( b.lo > 0 || b.openLo ) ) || ( b.openLo && ( a.lo > 0 || a.openLo ) );
        if( a.lo == 0 && !a.openLo )
            r.openLo = false;
        if( b.lo == 0 && !b.openLo )
            r.openLo = false;
        if( a.hasHi && b.hasHi )
        {
            r.hasHi  = true;
            r.hi     = a.hi * b.hi;
            r.openHi = ( a.openHi && b.hi > 0 ) || ( b.openHi && a.hi > 0 );
        }
        return r;
    }
    if( a.hasLo && a.hasHi && b.hasLo && b.hasHi )
    {
        Rat c[4] = { a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi };
        r.hasLo = r.hasHi = true;
        r.lo = r.hi = c[0];
        for( auto & x : c )
        {
            if( x < r.lo )
                r.lo = x;
            if( x > r.hi )
                r.hi = x;
        }
    }
    return r;
}
static Ival ivOf( const Poly & p )
{
    Ival r;
    r.hasLo = r.hasHi = true;
    for( auto & [m, c] : p.t )
    {
        Ival x;
        x.hasLo = x.hasHi = true;
        x.lo = x.hi = 1;
        for( auto & [a, k] : m.f )
        {
            if( k < 0 )
            {
                Ival y;
                if( knownPos( a ) )
                {
                    y.hasLo = true, y.lo = 0, y.openLo = true;
                    for( int i = 0; i < -k; i++ )
                        x = imul( x, y );
                    continue;
                }
                if( k % 2 == 0 )
                {
                    y.hasLo = true, y.lo = 0, y.openLo = true;
                    x = imul( x, y );
                    continue;
                }
                x = Ival{};
                continue;
            }
            Ival b = atoms[a].iv;
            if( knownPos( a ) && !( b.hasLo && b.lo > 0 ) )
                b.hasLo = true, b.lo = 0, b.openLo = true;
            if( k % 2 == 0 && !( b.hasLo && b.lo >= 0 ) )
            {
                Ival s = imul( b, b );
                if( !s.hasLo || s.lo < 0 )
                    s.hasLo = true, s.lo = 0, s.openLo = false;
                for( int i = 0; i < k / 2; i++ )
                    x = imul( x, s );
            }
            else
                for( int i = 0; i < k; i++ )
                    x = imul( x, b );
        }
        Ival y;
        if( c > 0 )
            y = x;
        else
        {
            y.hasLo = x.hasHi, y.lo = -x.hi, y.openLo = x.openHi;
            y.hasHi = x.hasLo, y.hi = -x.lo, y.openHi = x.openLo;
        }
        r.hasLo = r.hasLo && y.hasLo;
        r.hasHi = r.hasHi && y.hasHi;
        r.openLo = r.openLo || y.openLo;
        r.openHi = r.openHi || y.openHi;
        if( r.hasLo )
            r.lo += y.lo * abs( c );
        if( r.hasHi )
            r.hi += y.hi * abs( c );
    }
    return r;
}
static Z3_ast zpoly( const Poly & p )
{
    std::vector<Z3_ast> ts;
    for( auto & [m, c] : p.t )
    {
        std::vector<Z3_ast> fs;
        if( c != 1 || m.f.empty() )
            fs.push_back( zrat( c ) );
        for( auto & [a, k] : m.f )
        {
            if( k < 0 )
                giveUp( "internal: negative power in a constraint" );
            for( int i = 0; i < k; i++ )
                fs.push_back( atoms[a].z );
        }
        ts.push_back( fs.size() == 1 ? fs[0] : keep( Z3_mk_mul( Z, fs.size(), fs.data() ) ) );
    }
    if( ts.empty() )
        return zrat( 0 );
    return ts.size() == 1 ? ts[0] : keep( Z3_mk_add( Z, ts.size(), ts.data() ) );
}
static Z3_ast zmask( const Poly & cleared, int mask )
{
    Z3_ast z = zpoly( cleared ), o = zrat( 0 );
    switch( mask )
    {
        case NEG:
            return keep( Z3_mk_lt( Z, z, o ) );
        case ZERO:
            return keep( Z3_mk_eq( Z, z, o ) );
        case NEG | ZERO:
            return keep( Z3_mk_le( Z, z, o ) );
        case POS:
            return keep( Z3_mk_gt( Z, z, o ) );
        case POS | ZERO:
            return keep( Z3_mk_ge( Z, z, o ) );
        case POS | NEG:
            return keep( Z3_mk_not( Z, keep( Z3_mk_eq( Z, z, o ) ) ) );
        case 0:
            return keep( Z3_mk_false( Z ) );
        default:
            return keep( Z3_mk_true( Z ) );
    }
}
// canonical form: leading coefficient 1; returns whether the sign was flipped
static Poly normP( const Poly & p, bool & flip )
{
    flip = false;
    if( p.t.empty() )
        return p;
    Rat c = p.t.back().second;
    flip  = c < 0;
    return scale( p, Rat( 1 ) / c );
}
static int flipMask( int m )
{
    return ( m & ZERO ) | ( m & NEG ? POS : 0 ) | ( m & POS ? NEG : 0 );
}
static int degree( const Poly & p )
{
    int d = 0;
    for( auto & [m, c] : p.t )
    {
        int k = 0;
        for( auto & [a, e] : m.f )
            k += e;
        d = std::max( d, k );
    }
    return d;
}
static void closure( std::set<int> & as, std::set<int> & cs, std::set<int> & xs, bool links )
{
    std::vector<int> todo( as.begin(), as.end() );
    while( !todo.empty() )
    {
        int a = todo.back();
        todo.pop_back();
        auto add = [&]( int b ) {
            if( as.insert( b ).second )
                todo.push_back( b );
        };
        for( int c : atoms[a].cons )
            if( cs.insert( c ).second )
                for( int b : cons[c].atoms )
                    add( b );
        if( links )
            for( int x : atoms[a].links )
                if( xs.insert( x ).second )
                    for( int b : axioms[x].atoms )
                        add( b );
    }
}
static void assertBounds( Z3_solver s, int a )
{
    auto & A = atoms[a];
    if( A.iv.hasLo )
        Z3_solver_assert( Z, s, keep( A.iv.openLo ? Z3_mk_gt( Z, A.z, zrat( A.iv.lo ) ) : Z3_mk_ge( Z, A.z, zrat( A.iv.lo ) ) ) );
    if( A.iv.hasHi )
        Z3_solver_assert( Z, s, keep( A.iv.openHi ? Z3_mk_lt( Z, A.z, zrat( A.iv.hi ) ) : Z3_mk_le( Z, A.z, zrat( A.iv.hi ) ) ) );
}
static bool ratOfAst( Z3_ast v, Rat & r )
{
    if( Z3_get_ast_kind( Z, v ) != Z3_NUMERAL_AST )
        return false;
    if( Z3_is_algebraic_number( Z, v ) )
        return false;
    std::string s = Z3_get_numeral_string( Z, v );
    r             = Rat( s );
    r.canonicalize();
    return true;
}
// monotone functions: link every pair of applications inside a slice
static std::map<std::pair<int, int>, int> pairAx;
static int fnMono( const std::string & f )
{
    if( f == "tanh" || f == "exp" || f == "log" || f == "erf" || f == "log1p" || f == "expm1" || f == "sqrt" )
        return 1;
    return 0;
}
static Z3_ast zEvalCmp( const Poly & d, int mask )
{
    return zmask( clear( d ), mask );
}
static Z3_ast zor( std::vector<Z3_ast> v )
{
    return keep( Z3_mk_or( Z, v.size(), v.data() ) );
}
static Z3_ast ziff( Z3_ast a, Z3_ast b )
{
    return keep( Z3_mk_iff( Z, a, b ) );
}
static void addLink( Z3_ast z, std::set<int> as )
{
    int x = axioms.size();
    axioms.push_back( { z, { as.begin(), as.end() } } );
    for( int a : as )
        atoms[a].links.push_back( x );
}
static void atomsInto( std::set<int> & s, const Poly & p )
{
    for( int a : atomsOf( p ) )
    {
        if( atoms[a].inv >= 0 )
            for( int b : atomsOf( invpoly[atoms[a].inv] ) )
                s.insert( b );
        else
            s.insert( a );
    }
}
static void pairAxioms( const std::set<int> & as )
{
    std::map<std::string, std::vector<int>> byfn;
    for( int a : as )
        if( !atoms[a].fn.empty() )
            byfn[atoms[a].fn + ( atoms[a].fn == "pow" ? atoms[a].args[1].key() : "" )].push_back( a );
    for( auto & [k, v] : byfn )
    {
        bool pw = atoms[v[0]].fn == "pow";
        bool mono = fnMono( atoms[v[0]].fn ) && opt_mono;
        if( v.size() > 12 )
            continue;
        for( size_t i = 0; i < v.size(); i++ )
            for( size_t j = i + 1; j < v.size(); j++ )
            {
                if( pairAx.count( { v[i], v[j] } ) )
                    continue;
                pairAx[{ v[i], v[j] }] = 1;
                auto &A = atoms[v[i]], &B = atoms[v[j]];
                std::set<int> s = { v[i], v[j] };
                for( auto & p : A.args )
                    atomsInto( s, p );
                for( auto & p : B.args )
                    atomsInto( s, p );
                Poly d  = padd( A.args[0], B.args[0], -1 );
                Poly fd = padd( atomPoly( v[i] ), atomPoly( v[j] ), -1 );
                if( mono )
                {
                    addLink( ziff( zEvalCmp( d, POS ), zEvalCmp( fd, POS ) ), s );
                    addLink( ziff( zEvalCmp( d, NEG ), zEvalCmp( fd, NEG ) ), s );
                }
                else if( pw )
                {
                    const Poly & e = A.args[1];
                    Z3_ast ep = zEvalCmp( e, POS ), en = zEvalCmp( e, NEG );
                    addLink( zor( { keep( Z3_mk_not( Z, ep ) ), ziff( zEvalCmp( d, POS ), zEvalCmp( fd, POS ) ) } ), s );
                    addLink( zor( { keep( Z3_mk_not( Z, ep ) ), ziff( zEvalCmp( d, NEG ), zEvalCmp( fd, NEG ) ) } ), s );
                    addLink( zor( { keep( Z3_mk_not( Z, en ) ), ziff( zEvalCmp( d, POS ), zEvalCmp( fd, NEG ) ) } ), s );
                    addLink( zor( { keep( Z3_mk_not( Z, en ) ), ziff( zEvalCmp( d, NEG ), zEvalCmp( fd, POS ) ) } ), s );
                }
                else
                {
                    std::vector<Z3_ast> eq;
                    for( size_t q = 0; q < A.args.size(); q++ )
                        eq.push_back( zEvalCmp( padd( A.args[q], B.args[q], -1 ), POS | NEG ) );
                    eq.push_back( zEvalCmp( fd, ZERO ) );
                    addLink( zor( eq ), s );
                }
            }
    }
}
static Z3_lbool checkTimed( Z3_solver s )
{
    double t0 = now();
    Z3_lbool r = Z3_solver_check( Z, s );
    st.solver += now() - t0;
    st.queries++;
    if( r == Z3_L_TRUE )
        st.sat++;
    else if( r == Z3_L_FALSE )
        st.unsat++;
    else
        st.unknown++;
    return r;
}
// is "p has a sign in mask" satisfiable together with the path condition?
// extra: further conjuncts (poly, mask)
struct Query
{
    std::vector<std::pair<Poly, int>> cs;
};
static Z3_lbool solveReal( const Query & q, bool updateVals )
{
    std::vector<std::pair<Poly, int>> cl;
    std::set<int> base;
    for( auto & [p, m] : q.cs )
    {
        cl.push_back( { clear( p ), m } );
        for( int a : atomsOf( cl.back().first ) )
            base.insert( a );
    }
    for( int level = 0; level < 2; level++ )
    {
        std::set<int> as = base, cs, xs;
        if( level )
        {
            std::set<int> as2 = base;
            closure( as2, cs, xs, true );
            pairAxioms( as2 );
            cs.clear(), xs.clear();
        }
        closure( as, cs, xs, level > 0 );
        bool linear = true;
        for( auto & [p, m] : cl )
            linear = linear && degree( p ) <= 1;
        for( int c : cs )
            linear = linear && degree( cons[c].p ) <= 1;
        if( level && xs.empty() )
            break; // nothing new
        Z3_solver s;
        std::vector<const char *> tac;
        if( linear && xs.empty() )
            tac = { "QF_LRA" };
        else if( linear )
            tac = { "QF_LRA", "QF_NRA" };
        else
            tac = { "QF_NRA", "" };
        Z3_lbool r = Z3_L_UNDEF;
        for( auto * lg : tac )
        {
            s = *lg ? Z3_mk_solver_for_logic( Z, Z3_mk_string_symbol( Z, lg ) ) : Z3_mk_simple_solver( Z );
            Z3_solver_inc_ref( Z, s );
            setTimeout( s, g_qtimeout );
            for( int a : as )
                assertBounds( s, a );
            for( int c : cs )
                Z3_solver_assert( Z, s, cons[c].z );
            for( int x : xs )
                Z3_solver_assert( Z, s, axioms[x].z );
            for( auto & [p, m] : cl )
                Z3_solver_assert( Z, s, zmask( p, m ) );
            r = checkTimed( s );
            if( r != Z3_L_UNDEF )
                break;
            Z3_solver_dec_ref( Z, s );
        }
        if( r == Z3_L_UNDEF )
        {
            if( level == 0 )
                continue;
            return r;
        }
        if( r == Z3_L_FALSE )
        {
            Z3_solver_dec_ref( Z, s );
            return r;
        }
        // satisfiable at this level; are there axioms that may refute it?
        if( level == 0 )
        {
            std::set<int> as2 = base, c2, x2;
            closure( as2, c2, x2, true );
            pairAxioms( as2 );
            as2 = base, c2.clear(), x2.clear();
            closure( as2, c2, x2, true );
            if( !x2.empty() )
            {
                Z3_solver_dec_ref( Z, s );
                continue;
            }
        }
        if( updateVals )
        {
            Z3_model m = Z3_solver_get_model( Z, s );
            Z3_model_inc_ref( Z, m );
            for( int a : as )
            {
                Z3_ast v = nullptr;
                Rat rv;
                atoms[a].hasVal = Z3_model_eval( Z, m, atoms[a].z, true, &v ) && ratOfAst( v, rv );
                if( atoms[a].hasVal )
                    atoms[a].val = rv;
            }
            Z3_model_dec_ref( Z, m );
        }
        Z3_solver_dec_ref( Z, s );
        return r;
    }
    return Z3_L_UNDEF;
}
static int signAtVals( const Poly & p )
{
    Rat s = 0;
    for( auto & [m, c] : p.t )
    {
        Rat t = c;
        for( auto & [a, k] : m.f )
        {
            if( !atoms[a].hasVal )
                return 0;
            if( k < 0 && atoms[a].val == 0 )
                return 0;
            for( int i = 0; i < std::abs( k ); i++ )
                t = k > 0 ? Rat( t * atoms[a].val ) : Rat( t / atoms[a].val );
        }
        s += t;
    }
    return s < 0 ? NEG : s > 0 ? POS : ZERO;
}
static void learn( const Poly & np, int mask )
{
    // np normalised
    std::string k = np.key();
    auto it       = signs.find( k );
    int m         = it == signs.end() ? 7 : it->second;
    signs[k]      = m & mask;
    // tighten atom bounds for univariate linear facts
    if( np.t.size() <= 2 )
    {
        const Mono & lead = np.t.back().first;
        if( lead.f.size() == 1 && lead.f[0].second == 1 && ( np.t.size() == 1 || np.t[0].first.f.empty() ) )
        {
            Rat b    = np.t.size() == 2 ? Rat( -np.t[0].second ) : Rat( 0 );
            auto & I = atoms[lead.f[0].first].iv;
            if( !( mask & NEG ) )
            {
                bool open = !( mask & ZERO );
                if( !I.hasLo || b > I.lo || ( b == I.lo && open ) )
                    I.hasLo = true, I.lo = b, I.openLo = open;
            }
            if( !( mask & POS ) )
            {
                bool open = !( mask & ZERO );
                if( !I.hasHi || b < I.hi || ( b == I.hi && open ) )
                    I.hasHi = true, I.hi = b, I.openHi = open;
            }
        }
    }
}
// assert that p has a sign in mask (p already substituted)
static void assertSign( const Poly & p, int mask, bool implied )
{
    bool f;
    Poly np = normP( p, f );
    if( np.isConst() )
        return;
    if( f )
        mask = flipMask( mask );
    learn( np, mask );
    if( !implied )
    {
        Poly c = clear( np );
        int id = cons.size();
        cons.push_back( { c, mask, atomsOf( c ), zmask( c, mask ) } );
        for( int a : cons[id].atoms )
            atoms[a].cons.push_back( id );
        // a defining equation lets us eliminate an atom
    }
    if( mask == ZERO )
    {
        // solve for the newest plain input atom that occurs only linearly with constant coefficient
        for( auto it = np.t.rbegin(); it != np.t.rend(); ++it )
        {
            if( it->first.f.size() != 1 || it->first.f[0].second != 1 )
                continue;
            int a = it->first.f[0].first;
            if( atoms[a].subst || atoms[a].inv >= 0 || !atoms[a].fn.empty() )
                continue;
            int n = 0;
            bool other = false;
            for( auto & [m, c] : np.t )
                for( auto & [b, k] : m.f )
                {
                    if( b == a )
                        n++;
                    if( !atoms[b].fn.empty() || atoms[b].inv >= 0 )
                        other = true;
                }
            if( n != 1 || other )
                continue;
            Poly rest;
            for( auto & tm : np.t )
                if( !( tm.first == it->first ) )
                    rest.t.push_back( tm );
            atoms[a].to    = scale( rest, Rat( -1 ) / it->second );
            atoms[a].subst = true;
            break;
        }
    }
}
static void record( u64 d )
{
    taken.push_back( d );
    cur++;
}
static void checkTime();
// decide whether p has a sign in mask; forks when both are possible
static bool decideSign( const Poly & p0, int mask )
{
    Poly p = subst( p0 );
    if( p.isConst() )
    {
        int s = sgn( p.constVal() );
        return mask & ( s < 0 ? NEG : s > 0 ? POS : ZERO );
    }
    bool f;
    Poly np = normP( p, f );
    int m   = f ? flipMask( mask ) : mask;
    auto it = signs.find( np.key() );
    int kn  = it == signs.end() ? 7 : it->second;
    Ival iv = ivOf( np );
    if( iv.hasLo && ( iv.lo > 0 || ( iv.lo == 0 && iv.openLo ) ) )
        kn &= POS;
    else if( iv.hasLo && iv.lo == 0 )
        kn &= POS | ZERO;
    if( iv.hasHi && ( iv.hi < 0 || ( iv.hi == 0 && iv.openHi ) ) )
        kn &= NEG;
    else if( iv.hasHi && iv.hi == 0 )
        kn &= NEG | ZERO;
    if( !( kn & m ) )
    {
        st.trivial++;
        return false;
    }
    if( !( kn & ~m ) )
    {
        st.trivial++;
        return true;
    }
    if( replaying() )
    {
        u64 d = prefix[cur];
        record( d );
        if( ( d >> 8 ) != 1 )
            giveUp( "internal: replay diverged (real decision)" );
        bool v = d & 1;
        assertSign( np, v ? ( m & kn ) : ( ~m & kn & 7 ), d & 2 );
        return v;
    }
    checkTime();
    int s0  = signAtVals( np );
    bool tF = false, fF = false, tK = false, fK = false; // feasible / known
    if( s0 )
    {
        if( s0 & m )
            tF = tK = true;
        else
            fF = fK = true;
    }
    bool unk = false;
    if( !tK )
    {
        auto r = solveReal( { { { np, m & kn } } }, !fK );
        tK = true, tF = r != Z3_L_FALSE, unk |= r == Z3_L_UNDEF;
    }
    if( !fK )
    {
        if( !tF )
            fF = true; // the path condition itself is satisfiable
        else
        {
            auto r = solveReal( { { { np, ~m & kn & 7 } } }, false );
            fF = r != Z3_L_FALSE, unk |= r == Z3_L_UNDEF;
        }
    }
    bool v;
    if( tF && fF )
    {
        v = s0 ? ( s0 & m ) != 0 : true;
        pushAlt( ( 1 << 8 ) | !v );
        record( ( 1 << 8 ) | v );
        assertSign( np, v ? ( m & kn ) : ( ~m & kn & 7 ), false );
        if( unk )
            inconclusive( "solver gave up on the feasibility of a branch (both sides explored)" );
    }
    else
    {
        v = tF;
        record( ( 1 << 8 ) | 2 | v );
        assertSign( np, v ? ( m & kn ) : ( ~m & kn & 7 ), true );
    }
    return v;
}

// ------------------------------------------------------------- bit vectors
struct BNode
{
    Z3_ast z;
    unsigned w;
    bool fixed = false;
    u64 val    = 0;
};
static std::deque<BNode> btab;
static std::unordered_map<Z3_ast, int> bkey;
static std::vector<int> carriers; // byte carriers -> btab index
static std::unordered_map<int, int> carrierOf;
static const u32 M64 = 0x6B3A51C7;
static const u32 M32 = 0x5A700000;
static inline bool is32( u32 x )
{
    return ( x & 0xFFF00000 ) == M32 && ( x & 0xFFFFF ) < btab.size() && btab[x & 0xFFFFF].w == 32;
}
static inline bool is64h( u64 x )
{
    return ( x >> 32 ) == M64 && (u32)x < btab.size() && btab[(u32)x].w == 64;
}
static inline bool is64( u64 x )
{
    return is64h( x ) || is32( (u32)x ) || is32( (u32)( x >> 32 ) );
}
static inline bool is8( unsigned char x )
{
    return x >= 0x80 && (size_t)( x - 0x80 ) < carriers.size();
}
static std::map<unsigned, Z3_sort> bvs;
static Z3_sort bvSort( unsigned w )
{
    auto & s = bvs[w];
    if( !s )
    {
        s = Z3_mk_bv_sort( Z, w );
        Z3_inc_ref( Z, Z3_sort_to_ast( Z, s ) );
    }
    return s;
}
static Z3_ast bvNum( u64 v, unsigned w )
{
    return keep( Z3_mk_unsigned_int64( Z, v, bvSort( w ) ) );
}
static Z3_ast nodeAst( int i )
{
    auto & n = btab[i];
    return n.fixed ? bvNum( n.val, n.w ) : n.z;
}
static Z3_ast bv( u64 x, unsigned w )
{
    if( w == 8 )
        return is8( x ) ? nodeAst( carriers[(unsigned char)x - 0x80] ) : bvNum( x & 0xff, 8 );
    if( w == 32 )
        return is32( x ) ? nodeAst( (u32)x & 0xFFFFF ) : bvNum( (u32)x, 32 );
    if( is64h( x ) )
        return nodeAst( (u32)x );
    if( is64( x ) )
        return keep( Z3_mk_concat( Z, bv( x >> 32, 32 ), bv( (u32)x, 32 ) ) );
    return bvNum( x, 64 );
}
static u64 fromBV( Z3_ast z, unsigned w )
{
    z = keep( Z3_simplify( Z, z ) );
    if( Z3_get_ast_kind( Z, z ) == Z3_NUMERAL_AST )
    {
        u64 v = 0;
        Z3_get_numeral_uint64( Z, z, &v );
        return v;
    }
    if( w == 64 && Z3_get_ast_kind( Z, z ) == Z3_APP_AST
        && Z3_get_decl_kind( Z, Z3_get_app_decl( Z, Z3_to_app( Z, z ) ) ) == Z3_OP_CONCAT )
    {
        u64 hi = fromBV( Z3_mk_extract( Z, 63, 32, z ), 32 ), lo = fromBV( Z3_mk_extract( Z, 31, 0, z ), 32 );
        return hi << 32 | (u32)lo;
    }
    auto it = bkey.find( z );
    int id;
    if( it != bkey.end() && btab[it->second].w == w )
        id = it->second;
    else
    {
        id = btab.size();
        btab.push_back( { z, w } );
        bkey[z] = id;
        if( id >= 0xFFFFF )
            giveUp( "too many integer expressions" );
    }
    if( btab[id].fixed )
        return btab[id].val;
    if( w == 64 )
        return (u64)M64 << 32 | id;
    if( w == 32 )
        return M32 | id;
    auto c = carrierOf.find( id );
    if( c != carrierOf.end() )
        return 0x80 + c->second;
    if( carriers.size() >= 128 )
        giveUp( "too many symbolic bytes" );
    carrierOf[id] = carriers.size();
    carriers.push_back( id );
    return 0x80 + carriers.size() - 1;
}
static Z3_solver bvSolver = nullptr;
static Z3_model bvModel   = nullptr;
static std::vector<Z3_ast> bvCons;
static std::unordered_map<Z3_ast, int> bvKnown; // 1 true 0 false
static Z3_solver bvS()
{
    if( !bvSolver )
    {
        bvSolver = Z3_mk_simple_solver( Z );
        Z3_solver_inc_ref( Z, bvSolver );
        setTimeout( bvSolver, g_qtimeout );
    }
    return bvSolver;
}
static void bvAssert( Z3_ast c, bool implied )
{
    bvKnown[c] = 1;
    if( implied )
        return;
    bvCons.push_back( keep( c ) );
    Z3_solver_assert( Z, bvS(), c );
    if( bvModel )
    {
        Z3_ast v = nullptr;
        if( !Z3_model_eval( Z, bvModel, c, true, &v ) || Z3_get_bool_value( Z, v ) != Z3_L_TRUE )
        {
            Z3_model_dec_ref( Z, bvModel );
            bvModel = nullptr;
        }
    }
}
static Z3_lbool bvCheck( Z3_ast c, bool upd )
{
    Z3_solver s = bvS();
    Z3_solver_push( Z, s );
    Z3_solver_assert( Z, s, c );
    auto r = checkTimed( s );
    if( r == Z3_L_TRUE && upd )
    {
        if( bvModel )
            Z3_model_dec_ref( Z, bvModel );
        bvModel = Z3_solver_get_model( Z, s );
        Z3_model_inc_ref( Z, bvModel );
    }
    Z3_solver_pop( Z, s, 1 );
    return r;
}
static bool decideBV( Z3_ast c )
{
    c = keep( Z3_simplify( Z, c ) );
    auto b = Z3_get_bool_value( Z, c );
    if( b != Z3_L_UNDEF )
    {
        st.trivial++;
        return b == Z3_L_TRUE;
    }
    auto kn = bvKnown.find( c );
    if( kn != bvKnown.end() )
        return kn->second;
    Z3_ast nc = keep( Z3_simplify( Z, keep( Z3_mk_not( Z, c ) ) ) );
    kn = bvKnown.find( nc );
    if( kn != bvKnown.end() )
        return !kn->second;
    if( replaying() )
    {
        u64 d = prefix[cur];
        record( d );
        if( ( d >> 8 ) != 2 )
            giveUp( "internal: replay diverged (integer decision)" );
        bvAssert( d & 1 ? c : nc, d & 2 );
        return d & 1;
    }
    checkTime();
    int s0 = -1;
    if( bvModel )
    {
        Z3_ast v = nullptr;
        if( Z3_model_eval( Z, bvModel, c, true, &v ) )
        {
            auto bb = Z3_get_bool_value( Z, v );
            s0      = bb == Z3_L_TRUE ? 1 : bb == Z3_L_FALSE ? 0 : -1;
        }
    }
    bool unk = false, tF, fF;
    if( s0 == -1 )
    {
        auto r = bvCheck( c, true );
        tF = r != Z3_L_FALSE, unk |= r == Z3_L_UNDEF;
        if( tF )
            s0 = 1;
    }
    else
        tF = s0 == 1;
    if( s0 == 1 )
    {
        auto r = bvCheck( nc, false );
        fF = r != Z3_L_FALSE, unk |= r == Z3_L_UNDEF;
    }
    else if( s0 == 0 )
    {
        fF     = true;
        auto r = bvCheck( c, false );
        tF = r != Z3_L_FALSE, unk |= r == Z3_L_UNDEF;
    }
    else
        fF = true;
    bool v;
    if( tF && fF )
    {
        v = s0 != 0;
        pushAlt( ( 2 << 8 ) | !v );
        record( ( 2 << 8 ) | v );
        bvAssert( v ? c : nc, false );
        if( unk )
            inconclusive( "solver gave up on the feasibility of an integer branch (both sides explored)" );
    }
    else
    {
        v = tF;
        record( ( 2 << 8 ) | 2 | v );
        bvAssert( v ? c : nc, true );
    }
    return v;
}
static void fixNode( u64 raw, unsigned w, u64 val )
{
    if( w == 8 && is8( raw ) )
    {
        auto & n = btab[carriers[(unsigned char)raw - 0x80]];
        n.fixed = true, n.val = val;
    }
    if( w == 32 && is32( raw ) )
    {
        auto & n = btab[raw & 0xFFFFF];
        n.fixed = true, n.val = val;
    }
    if( w == 64 && is64h( raw ) )
    {
        auto & n = btab[(u32)raw];
        n.fixed = true, n.val = val;
    }
    else if( w == 64 )
    {
        fixNode( (u32)raw, 32, (u32)val );
        fixNode( raw >> 32, 32, val >> 32 );
    }
}
// fork over every feasible value of an integer
static u64 concBV( u64 raw, unsigned w )
{
    Z3_ast z = keep( Z3_simplify( Z, bv( raw, w ) ) );
    u64 v    = 0;
    if( Z3_get_ast_kind( Z, z ) == Z3_NUMERAL_AST )
    {
        Z3_get_numeral_uint64( Z, z, &v );
        fixNode( raw, w, v );
        return v;
    }
    if( replaying() )
    {
        u64 d = prefix[cur];
        record( d );
        if( ( d >> 8 ) != 3 )
            giveUp( "internal: replay diverged (value decision)" );
        v = prefix[cur];
        record( v );
        bvAssert( keep( Z3_mk_eq( Z, z, bvNum( v, w ) ) ), d & 2 );
        fixNode( raw, w, v );
        return v;
    }
    checkTime();
    std::vector<u64> vals;
    Z3_solver s = bvS();
    Z3_solver_push( Z, s );
    bool unk = false;
    while( true )
    {
        auto r = checkTimed( s );
        if( r != Z3_L_TRUE )
        {
            unk = r == Z3_L_UNDEF;
            break;
        }
        Z3_model m = Z3_solver_get_model( Z, s );
        Z3_model_inc_ref( Z, m );
        Z3_ast x = nullptr;
        u64 y    = 0;
        Z3_model_eval( Z, m, z, true, &x );
        Z3_get_numeral_uint64( Z, x, &y );
        Z3_model_dec_ref( Z, m );
        vals.push_back( y );
        Z3_solver_assert( Z, s, keep( Z3_mk_not( Z, keep( Z3_mk_eq( Z, z, bvNum( y, w ) ) ) ) ) );
        if( (long)vals.size() > opt_maxenum )
        {
            unk = true;
            break;
        }
    }
    Z3_solver_pop( Z, s, 1 );
    if( unk )
        inconclusive( "an integer that must be made concrete has too many values" );
    if( vals.empty() )
        giveUp( "internal: no value for an integer" );
    for( size_t i = 1; i < vals.size(); i++ )
    {
        std::vector<u64> a = taken;
        a.push_back( 3 << 8 );
        a.push_back( vals[i] );
        st.forks++;
        sendMsg( 'A', std::string( (char *)a.data(), a.size() * 8 ) );
    }
    u64 d = ( 3 << 8 ) | ( vals.size() == 1 ? 2 : 0 );
    record( d );
    record( vals[0] );
    bvAssert( keep( Z3_mk_eq( Z, z, bvNum( vals[0], w ) ) ), vals.size() == 1 );
    fixNode( raw, w, vals[0] );
    return vals[0];
}

// ------------------------------------------------------------- violations
static std::string hexd( double d )
{
    char b[64];
    snprintf( b, sizeof b, "%a", d );
    return b;
}
static double lfrand( u64 & s )
{
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return ( s >> 11 ) * ( 1.0 / 9007199254740992.0 );
}
// write candidate assignments for the current path condition plus extra
static void violation(
    const std::string & msg, const Query & extra, Z3_ast bvExtra = nullptr, char type = 'V', int variants = 6 )
{
    // integers
    std::map<int, u64> bvVals;
    Z3_solver s = bvS();
    Z3_solver_push( Z, s );
    if( bvExtra )
        Z3_solver_assert( Z, s, bvExtra );
    if( checkTimed( s ) == Z3_L_TRUE )
    {
        Z3_model m = Z3_solver_get_model( Z, s );
        Z3_model_inc_ref( Z, m );
        for( size_t i = 0; i < inputs.size(); i++ )
            if( inputs[i].bv )
            {
                Z3_ast x = nullptr;
                u64 y    = 0;
                Z3_model_eval( Z, m, inputs[i].bv, true, &x );
                if( x )
                    Z3_get_numeral_uint64( Z, x, &y );
                bvVals[i] = y;
            }
        for( auto & in : inputs )
            if( in.kind == 'u' || in.kind == 'n' || in.kind == 'i' || in.kind == 'w' )
            {
                Z3_ast x = nullptr;
                u64 y    = in.seed;
                if( is64( in.seed ) && Z3_model_eval( Z, m, bv( in.seed, 64 ), true, &x ) && x )
                    Z3_get_numeral_uint64( Z, x, &y );
                in.val = y;
            }
        Z3_model_dec_ref( Z, m );
    }
    Z3_solver_pop( Z, s, 1 );
    // reals: several variants
    for( int variant = 0; variant < variants; variant++ )
    {
        u64 rs = 88172645463325252ull + variant * 977 + g_seed;
        Z3_solver r = Z3_mk_solver_for_logic( Z, Z3_mk_string_symbol( Z, "QF_NRA" ) );
        if( variant == 5 )
            r = Z3_mk_simple_solver( Z );
        Z3_solver_inc_ref( Z, r );
        setTimeout( r, variant ? 2000 : 10000 );
        std::vector<std::pair<Poly, int>> cl;
        for( auto & [p, m] : extra.cs )
            cl.push_back( { clear( p ), m } );
        for( size_t a = 0; a < atoms.size(); a++ )
            assertBounds( r, a );
        for( auto & c : cons )
            Z3_solver_assert( Z, r, c.z );
        for( auto & x : axioms )
            Z3_solver_assert( Z, r, x.z );
        for( auto & [p, m] : cl )
            Z3_solver_assert( Z, r, zmask( p, m ) );
        std::map<int, double> vals;
        auto grab = [&]() {
            Z3_model m = Z3_solver_get_model( Z, r );
            Z3_model_inc_ref( Z, m );
            for( size_t i = 0; i < inputs.size(); i++ )
                if( inputs[i].atom >= 0 )
                {
                    Z3_ast v = nullptr;
                    Rat q;
                    if( Z3_model_eval( Z, m, atoms[inputs[i].atom].z, true, &v ) )
                    {
                        if( ratOfAst( v, q ) )
                            vals[i] = ratToDouble( q );
                        else
                            vals[i] = atof( Z3_get_numeral_decimal_string( Z, v, 20 ) );
                    }
                }
            Z3_model_dec_ref( Z, m );
        };
        if( checkTimed( r ) == Z3_L_TRUE )
        {
            grab();
            double t0 = now();
            if( variant )
                for( size_t i = 0; i < inputs.size() && now() - t0 < 8; i++ )
                {
                    int a = inputs[i].atom;
                    if( a < 0 )
                        continue;
                    auto & I = atoms[a].iv;
                    bool done = false;
                    for( int tr = 0; tr < 5 && !done; tr++ )
                    {
                        double c, w = vals[i];
                        if( variant == 1 || variant == 5 )
                        {
                            double sc[] = { 1, 4, 16, 256, 4096 };
                            c           = std::nearbyint( w * sc[tr] ) / sc[tr];
                        }
                        else
                        {
                            double f = lfrand( rs );
                            if( tr < 2 && I.hasLo && I.hasHi )
                                c = I.lo.get_d() + ( I.hi.get_d() - I.lo.get_d() ) * f;
                            else
                                c = w + ( f - 0.5 ) * std::pow( 10.0, -tr * ( variant - 1 ) );
                        }
                        Z3_solver_push( Z, r );
                        Z3_solver_assert( Z, r, keep( Z3_mk_eq( Z, atoms[a].z, zrat( ratOf( c ) ) ) ) );
                        if( checkTimed( r ) == Z3_L_TRUE )
                        {
                            done = true;
                            grab();
                        }
                        else
                            Z3_solver_pop( Z, r, 1 );
                    }
                }
        }
        Z3_solver_dec_ref( Z, r );
        std::ostringstream o;
        o << "# " << msg << "\n";
        for( size_t i = 0; i < inputs.size(); i++ )
        {
            auto & in = inputs[i];
            switch( in.kind )
            {
                case 'r':
                    o << "r " << in.name << " " << hexd( vals.count( i ) ? vals[i] : 0.5 ) << " # "
                      << ( vals.count( i ) ? vals[i] : 0.5 ) << "\n";
                    break;
                case 'b':
                    o << "b " << in.name << " " << bvVals[i] << "\n";
                    break;
                case 'c':
                    o << "c " << in.name << " " << in.val << "\n";
                    break;
                case 'u':
                case 'n':
                    o << in.kind << " " << in.val << ":" << in.ctr << " " << hexd( vals.count( i ) ? vals[i] : 0.5 )
                      << " # " << ( vals.count( i ) ? vals[i] : 0.5 ) << "\n";
                    break;
                case 'i':
                case 'w':
                    o << in.kind << " " << in.val << ":" << in.ctr << " " << bvVals[i] << "\n";
                    break;
            }
        }
        sendMsg( type, o.str() );
        bool anyReal = false;
        for( auto & in : inputs )
            anyReal |= in.atom >= 0;
        if( !anyReal )
            break;
    }
}
static bool g_sample = false;
static char altstack[1 << 26];
static bool dying = false;
static void onCrash( const char * why )
{
    if( dying || g_fd < 0 )
        _exit( 78 );
    dying = true;
    violation( why, {} );
    endPath( "crash" );
}
static void onSignal( int sig )
{
    if( g_in_engine )
    {
        if( g_fd >= 0 )
            sendMsg( 'I', "crash inside the engine, signal " + std::to_string( sig ) );
        _exit( 79 );
    }
    onCrash(
        sig == SIGABRT  ? "the code under test aborted"
        : sig == SIGFPE ? "integer division by zero"
                        : "the code under test crashed (memory error)" );
}
extern "C" void __sanitizer_set_death_callback( void ( * )( void ) );
extern "C" const char * __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:malloc_fill_byte=190:max_malloc_fill_size=65536:detect_stack_use_"
           "after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:allow_user_segv_handler=1:"
           "detect_odr_violation=0:alloc_dealloc_mismatch=0:check_initialization_order=0:allocator_may_return_null=1";
}
static void asanDeath()
{
    onCrash( "AddressSanitizer reported a memory error" );
}
static double pathStart;
static void checkTime()
{
    if( now() - pathStart > g_pathtime )
        giveUp( "time limit of a single path reached" );
}

// ------------------------------------------------------------- function atoms
static double fnAtom( const std::string & f, const std::vector<Poly> & args, std::function<void( int )> init )
{
    std::string k = f;
    for( auto & a : args )
        k += "|" + a.key();
    auto it = fnkey.find( k );
    if( it != fnkey.end() )
        return mkR( atomPoly( it->second ) );
    int a         = newAtom( f );
    atoms[a].fn   = f;
    atoms[a].args = args;
    fnkey[k]      = a;
    init( a );
    return mkR( atomPoly( a ) );
}
static void bound( int a, bool hasLo, Rat lo, bool openLo, bool hasHi, Rat hi, bool openHi )
{
    auto & I = atoms[a].iv;
    I.hasLo = hasLo, I.lo = lo, I.openLo = openLo, I.hasHi = hasHi, I.hi = hi, I.openHi = openHi;
}
static std::set<int> linkSet( int a, const Poly & p )
{
    std::set<int> s = { a };
    atomsInto( s, p );
    return s;
}
// f(x) has the sign of x (and so does f(x)-b of x-b where asked)
static void signLink( int a, const Poly & p )
{
    auto s = linkSet( a, p );
    Poly v = atomPoly( a );
    addLink( ziff( zEvalCmp( p, POS ), zEvalCmp( v, POS ) ), s );
    addLink( ziff( zEvalCmp( p, NEG ), zEvalCmp( v, NEG ) ), s );
}
static Poly pinv( const Poly & q0 ) // q0 known to be non-zero
{
    Poly q = q0;
    if( q.isConst() )
        return constPoly( Rat( 1 ) / q.constVal() );
    if( q.t.size() == 1 )
    {
        Poly r = constPoly( Rat( 1 ) / q.t[0].second );
        for( auto & [a, k] : q.t[0].first.f )
        {
            if( atoms[a].inv >= 0 )
                r = pmul( r, ppow( invpoly[atoms[a].inv], k ) );
            else
                r = pmulRaw( r, atomPoly( a, -k ) );
        }
        return r;
    }
    bool f;
    Rat lead      = q.t.back().second;
    Poly nq       = normP( q, f );
    std::string k = nq.key();
    auto it       = invkey.find( k );
    int a;
    if( it != invkey.end() )
        a = it->second;
    else
    {
        a            = newAtom( "inv" );
        atoms[a].inv = invpoly.size();
        invpoly.push_back( nq );
        invkey[k] = a;
    }
    return scale( atomPoly( a ), Rat( 1 ) / lead );
}

struct Eng // marks code running inside the engine
{
    bool old;
    Eng() : old( g_in_engine )
    {
        g_in_engine = true;
    }
    ~Eng()
    {
        g_in_engine = old;
    }
};

extern "C"
{
    // ------------------------------------------------------------- bookkeeping
    void sx_step()
    {
        if( ++st.steps > g_steplimit )
        {
            Eng e;
            if( opt_termination )
            {
                violation( "does not terminate (step limit reached)", {} );
                endPath( "loop" );
            }
            giveUp( "step limit reached" );
        }
    }
    void sx_fn( const char * n, char * flag )
    {
        if( *flag )
            return;
        *flag = 1;
        Eng e;
        sendMsg( 'F', n );
    }
    // ------------------------------------------------------------- floating point
    static bool spec( double a, double b )
    {
        return !std::isfinite( a ) || !std::isfinite( b );
    }
    double sx_fbin( int op, double a, double b )
    {
        bool ha = isD( a ), hb = isD( b );
        if( !ha && !hb )
            switch( op )
            {
                case 14:
                    return a + b;
                case 16:
                    return a - b;
                case 18:
                    return a * b;
                case 21:
                    return a / b;
                default:
                    return std::fmod( a, b );
            }
        Eng e;
        double o = ha ? b : a;
        if( !std::isfinite( o ) )
        {
            if( std::isnan( o ) )
                return o;
            Poly s = polyOf( ha ? a : b );
            switch( op )
            {
                case 14:
                    return o;
                case 16:
                    return ha ? -o : o;
                case 18:
                    if( decideSign( s, ZERO ) )
                        return NAN;
                    return decideSign( s, POS ) ? o : -o;
                case 21:
                    if( ha )
                        return 0.0;
                    return decideSign( s, POS | ZERO ) ? o : -o;
                default:
                    giveUp( "fmod with infinity" );
            }
        }
        Poly x = polyOf( a ), y = polyOf( b );
        switch( op )
        {
            case 14:
                return mkR( padd( x, y ) );
            case 16:
                return mkR( padd( x, y, -1 ) );
            case 18:
                return mkR( pmul( x, y ) );
            case 21:
            {
                y = subst( y );
                if( decideSign( y, ZERO ) )
                {
                    if( decideSign( x, ZERO ) )
                        return NAN;
                    return decideSign( x, POS ) ? INFINITY : -INFINITY;
                }
                return mkR( pmul( x, pinv( y ) ) );
            }
            default:
                giveUp( "fmod of a symbolic real" );
        }
    }
    double sx_fneg( double a )
    {
        if( !isD( a ) )
            return -a;
        Eng e;
        return mkR( scale( polyOf( a ), -1 ) );
    }
    // long double: the same handles, constants rounded to double
    static bool isL( long double a )
    {
        return isD( (double)a ) && (long double)(double)a == a;
    }
    bool sx_fcmp( int pred, double a, double b );
    long double sx_lbin( int op, long double a, long double b )
    {
        if( isL( a ) || isL( b ) )
            return sx_fbin( op, a, b );
        return op == 14 ? a + b : op == 16 ? a - b : op == 18 ? a * b : op == 21 ? a / b : std::fmod( a, b );
    }
    long double sx_lneg( long double a )
    {
        return isL( a ) ? (long double)sx_fneg( a ) : -a;
    }
    bool sx_lcmp( int pred, long double a, long double b )
    {
        if( isL( a ) || isL( b ) )
            return sx_fcmp( pred, a, b );
        if( std::isnan( a ) || std::isnan( b ) )
            return pred & 8;
        return a == b ? pred & 1 : a > b ? pred & 2 : pred & 4;
    }
    bool sx_fcmp( int pred, double a, double b )
    {
        bool ha = isD( a ), hb = isD( b );
        // predicate bits: 1 equal, 2 greater, 4 less, 8 unordered
        if( !ha && !hb )
        {
            if( std::isnan( a ) || std::isnan( b ) )
                return pred & 8;
            return a == b ? pred & 1 : a > b ? pred & 2 : pred & 4;
        }
        Eng e;
        if( spec( a, b ) )
        {
            double o = std::isfinite( a ) ? b : a;
            if( std::isnan( o ) )
                return pred & 8;
            bool less = std::isfinite( a ) ? o > 0 : o < 0; // a < b
            return less ? pred & 4 : pred & 2;
        }
        int mask = ( pred & 1 ? ZERO : 0 ) | ( pred & 2 ? POS : 0 ) | ( pred & 4 ? NEG : 0 );
        if( mask == 7 )
            return true;
        if( mask == 0 )
            return false;
        return decideSign( padd( polyOf( a ), polyOf( b ), -1 ), mask );
    }
    double sx_fconc( double a )
    {
        if( isD( a ) )
        {
            Eng e;
            Poly p = subst( polyOf( a ) );
            if( p.isConst() )
                return ratToDouble( p.constVal() );
            giveUp( "a symbolic real reaches code that cannot be encoded" );
        }
        return a;
    }
    bool sx_fpclass( double a, int test )
    {
        if( isD( a ) )
        {
            Eng e;
            Poly p = polyOf( a );
            int m  = 0;
            if( test & ( 8 | 16 ) )
                m |= NEG;
            if( test & ( 32 | 64 ) )
                m |= ZERO;
            if( test & ( 128 | 256 ) )
                m |= POS;
            return m == 7 ? true : m == 0 ? false : decideSign( p, m );
        }
        u64 u    = bitsOf( a );
        bool neg = u >> 63;
        if( std::isnan( a ) )
            return test & 3;
        if( std::isinf( a ) )
            return test & ( neg ? 4 : 512 );
        if( a == 0 )
            return test & ( neg ? 32 : 64 );
        if( std::fabs( a ) < 2.2250738585072014e-308 )
            return test & ( neg ? 16 : 128 );
        return test & ( neg ? 8 : 256 );
    }
    // integer part by enumeration of the feasible integers
    static double enumInt( Poly p, int mode ) // 0 floor 1 ceil 2 trunc 3 nearest
    {
        p = subst( p );
        if( p.isConst() )
        {
            double d = ratToDouble( p.constVal() );
            return mode == 0 ? std::floor( d ) : mode == 1 ? std::ceil( d ) : mode == 2 ? std::trunc( d ) : std::round( d );
        }
        if( mode == 2 )
            mode = decideSign( p, POS | ZERO ) ? 0 : 1;
        if( mode == 3 )
        {
            p    = padd( p, constPoly( Rat( 1, 2 ) ) );
            mode = 0;
        }
        // find n with n <= p < n+1 (floor) or n-1 < p <= n (ceil)
        auto cond = [&]( const Rat & n, Query & q ) {
            q.cs.push_back( { padd( p, constPoly( n ), -1 ), mode == 0 ? POS | ZERO : NEG | ZERO } );
            q.cs.push_back( { padd( p, constPoly( mode == 0 ? Rat( n + 1 ) : Rat( n - 1 ) ), -1 ), mode == 0 ? NEG : POS } );
        };
        if( replaying() )
        {
            u64 d = prefix[cur];
            record( d );
            if( ( d >> 8 ) != 4 )
                giveUp( "internal: replay diverged (integer part)" );
            double v = dblOf( prefix[cur] );
            record( bitsOf( v ) );
            Query q;
            cond( ratOf( v ), q );
            for( auto & [pp, m] : q.cs )
                assertSign( pp, m, d & 2 );
            return v;
        }
        checkTime();
        // bounds first
        Ival iv = ivOf( p );
        std::vector<double> vals;
        bool unk = false;
        if( iv.hasLo && iv.hasHi && iv.hi - iv.lo <= opt_maxenum )
        {
            Rat l = iv.lo, h = iv.hi;
            mpz_class a, b;
            mpz_fdiv_q( a.get_mpz_t(), l.get_num_mpz_t(), l.get_den_mpz_t() );
            mpz_cdiv_q( b.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t() );
            for( mpz_class i = a; i <= b; i++ )
            {
                Query q;
                cond( Rat( i ), q );
                auto r = solveReal( q, false );
                if( r == Z3_L_UNDEF )
                    unk = true;
                if( r != Z3_L_FALSE )
                    vals.push_back( i.get_d() );
            }
        }
        else
            giveUp( "integer part of an unbounded symbolic real" );
        if( unk )
            inconclusive( "solver gave up on an integer part" );
        if( vals.empty() )
            giveUp( "internal: no integer part" );
        for( size_t i = 1; i < vals.size(); i++ )
        {
            std::vector<u64> a = taken;
            a.push_back( 4 << 8 );
            a.push_back( bitsOf( vals[i] ) );
            st.forks++;
            sendMsg( 'A', std::string( (char *)a.data(), a.size() * 8 ) );
        }
        record( ( 4 << 8 ) | ( vals.size() == 1 ? 2 : 0 ) );
        record( bitsOf( vals[0] ) );
        Query q;
        cond( ratOf( vals[0] ), q );
        for( auto & [pp, m] : q.cs )
            assertSign( pp, m, vals.size() == 1 );
        for( int a : atomsOf( p ) )
            atoms[a].hasVal = false;
        return vals[0];
    }
    double sx_fptoi( double a, int bits, int sgn )
    {
        if( isD( a ) )
        {
            Eng e;
            return enumInt( polyOf( a ), 2 );
        }
        (void)bits, (void)sgn;
        return a;
    }
    double sx_w_fabs( double a )
    {
        if( !isD( a ) )
            return std::fabs( a );
        Eng e;
        Poly p = polyOf( a );
        return decideSign( p, POS | ZERO ) ? a : mkR( scale( p, -1 ) );
    }
    double sx_w_floor( double a )
    {
        Eng e;
        return isD( a ) ? enumInt( polyOf( a ), 0 ) : std::floor( a );
    }
    double sx_w_ceil( double a )
    {
        Eng e;
        return isD( a ) ? enumInt( polyOf( a ), 1 ) : std::ceil( a );
    }
    double sx_w_trunc( double a )
    {
        Eng e;
        return isD( a ) ? enumInt( polyOf( a ), 2 ) : std::trunc( a );
    }
    double sx_w_round( double a )
    {
        Eng e;
        return isD( a ) ? enumInt( polyOf( a ), 3 ) : std::round( a );
    }
    double sx_w_rint( double a )
    {
        Eng e;
        return isD( a ) ? enumInt( polyOf( a ), 3 ) : std::rint( a );
    }
    double sx_w_nearbyint( double a )
    {
        return sx_w_rint( a );
    }
    long sx_w_lround( double a )
    {
        return (long)sx_w_round( a );
    }
    long long sx_w_llround( double a )
    {
        return (long long)sx_w_round( a );
    }
    long sx_w_lrint( double a )
    {
        return (long)sx_w_rint( a );
    }
    double sx_w_fmin( double a, double b )
    {
        if( std::isnan( a ) )
            return b;
        if( std::isnan( b ) )
            return a;
        return sx_fcmp( 4, a, b ) ? a : b;
    }
    double sx_w_fmax( double a, double b )
    {
        if( std::isnan( a ) )
            return b;
        if( std::isnan( b ) )
            return a;
        return sx_fcmp( 2, a, b ) ? a : b;
    }
    double sx_w_fma( double a, double b, double c )
    {
        if( !isD( a ) && !isD( b ) && !isD( c ) )
            return std::fma( a, b, c );
        return sx_fbin( 14, sx_fbin( 18, a, b ), c );
    }
    // an unspecified function of one argument
    double sx_ufn( const char * f, double a )
    {
        Eng e;
        return fnAtom( std::string( "u_" ) + f, { subst( polyOf( a ) ) }, []( int ) {} );
    }
    double sx_w_copysign( double a, double b )
    {
        if( !isD( a ) && !isD( b ) )
            return std::copysign( a, b );
        double m = sx_w_fabs( a );
        bool neg = isD( b ) ? !sx_fcmp( 3, b, 0.0 ) : std::signbit( b );
        return neg ? sx_fneg( m ) : m;
    }
    // odd functions: canonical sign of the argument
    static double oddFn( const char * f, double a, std::function<void( int, const Poly & )> init )
    {
        Eng e;
        Poly p = subst( polyOf( a ) );
        if( p.isConst() && p.constVal() == 0 )
            return 0.0;
        bool neg = p.t.back().second < 0;
        if( neg )
            p = scale( p, -1 );
        double r = fnAtom( f, { p }, [&]( int x ) { init( x, p ); } );
        return neg ? sx_fneg( r ) : r;
    }
    double sx_w_tanh( double a )
    {
        if( !isD( a ) )
            return std::tanh( a );
        return oddFn( "tanh", a, []( int x, const Poly & p ) {
            bound( x, true, -1, true, true, 1, true );
            signLink( x, p );
        } );
    }
    double sx_w_erf( double a )
    {
        if( !isD( a ) )
            return std::erf( a );
        return oddFn( "erf", a, []( int x, const Poly & p ) {
            bound( x, true, -1, true, true, 1, true );
            signLink( x, p );
        } );
    }
    double sx_w_erfc( double a )
    {
        if( !isD( a ) )
            return std::erfc( a );
        return sx_fbin( 16, 1.0, sx_w_erf( a ) );
    }
    double sx_w_sin( double a )
    {
        if( !isD( a ) )
            return std::sin( a );
        return oddFn( "sin", a, []( int x, const Poly & ) { bound( x, true, -1, false, true, 1, false ); } );
    }
    double sx_w_atan( double a )
    {
        if( !isD( a ) )
            return std::atan( a );
        return oddFn( "atan", a, []( int x, const Poly & p ) { signLink( x, p ); } );
    }
    double sx_w_sinh( double a )
    {
        if( !isD( a ) )
            return std::sinh( a );
        return oddFn( "sinh", a, []( int x, const Poly & p ) { signLink( x, p ); } );
    }
    double sx_w_cos( double a )
    {
        if( !isD( a ) )
            return std::cos( a );
        Eng e;
        Poly p = subst( polyOf( a ) );
        if( p.t.back().second < 0 )
            p = scale( p, -1 );
        return fnAtom( "cos", { p }, [&]( int x ) { bound( x, true, -1, false, true, 1, false ); } );
    }
    double sx_w_exp( double a )
    {
        if( !isD( a ) )
            return std::exp( a );
        Eng e;
        Poly p = subst( polyOf( a ) );
        if( p.isConst() )
            return std::exp( ratToDouble( p.constVal() ) );
        if( p.t.size() == 1 && p.t[0].second == 1 && p.t[0].first.f.size() == 1 && p.t[0].first.f[0].second == 1
            && atoms[p.t[0].first.f[0].first].fn == "log" )
            return mkR( atoms[p.t[0].first.f[0].first].args[0] );
        // exp(-p) = 1/exp(p)
        bool neg = p.t.back().second < 0;
        if( neg )
            p = scale( p, -1 );
        double r = fnAtom( "exp", { p }, [&]( int x ) {
            bound( x, true, 0, true, false, 0, false );
            auto s = linkSet( x, p );
            Poly v = padd( atomPoly( x ), constPoly( 1 ), -1 );
            addLink( ziff( zEvalCmp( p, POS ), zEvalCmp( v, POS ) ), s );
            addLink( ziff( zEvalCmp( p, NEG ), zEvalCmp( v, NEG ) ), s );
        } );
        return neg ? mkR( pinv( polyOf( r ) ) ) : r;
    }
    double sx_w_expm1( double a )
    {
        if( !isD( a ) )
            return std::expm1( a );
        return sx_fbin( 16, sx_w_exp( a ), 1.0 );
    }
    double sx_w_log( double a )
    {
        if( !isD( a ) )
            return std::log( a );
        Eng e;
        Poly p = subst( polyOf( a ) );
        if( p.isConst() )
            return std::log( ratToDouble( p.constVal() ) );
        if( decideSign( p, ZERO ) )
            return -INFINITY;
        if( decideSign( p, NEG ) )
            return NAN;
        if( p.t.size() == 1 && p.t[0].first.f.size() == 1 )
        {
            auto [at, k] = p.t[0].first.f[0];
            Rat c        = p.t[0].second;
            if( atoms[at].fn == "exp" && c > 0 ) // log(c exp(q)) = log(c) + q
                return sx_fbin( 14, std::log( ratToDouble( c ) ), mkR( scale( atoms[at].args[0], k ) ) );
            if( k == -1 && c == 1 ) // log(1/x) = -log(x)
                return sx_fneg( sx_w_log( mkR( atomPoly( at ) ) ) );
        }
        return fnAtom( "log", { p }, [&]( int x ) {
            auto s = linkSet( x, p );
            Poly d = padd( p, constPoly( 1 ), -1 );
            Poly v = atomPoly( x );
            addLink( ziff( zEvalCmp( d, POS ), zEvalCmp( v, POS ) ), s );
            addLink( ziff( zEvalCmp( d, NEG ), zEvalCmp( v, NEG ) ), s );
        } );
    }
    double sx_w_log1p( double a )
    {
        if( !isD( a ) )
            return std::log1p( a );
        return sx_w_log( sx_fbin( 14, 1.0, a ) );
    }
    double sx_w_sqrt( double a )
    {
        if( !isD( a ) )
            return std::sqrt( a );
        Eng e;
        Poly p = subst( polyOf( a ) );
        if( p.isConst() )
            return std::sqrt( ratToDouble( p.constVal() ) );
        if( decideSign( p, NEG ) )
            return NAN;
        if( decideSign( p, ZERO ) )
            return 0.0;
        if( p.t.size() == 1 && p.t[0].second == 1 ) // the root of a square is the absolute value
        {
            Poly root    = p;
            bool perfect = true;
            for( auto & f : root.t[0].first.f )
            {
                perfect &= f.second % 2 == 0;
                f.second /= 2;
            }
            if( perfect )
                return mkR( decideSign( root, POS ) ? root : scale( root, -1 ) );
        }
        return fnAtom( "sqrt", { p }, [&]( int x ) {
            bound( x, true, 0, true, false, 0, false );
            Poly q = padd( pmul( atomPoly( x ), atomPoly( x ) ), p, -1 );
            addLink( zEvalCmp( q, ZERO ), linkSet( x, p ) );
        } );
    }
    double sx_w_pow( double a, double b )
    {
        if( !isD( a ) && !isD( b ) )
            return std::pow( a, b );
        Eng e;
        if( !isD( b ) && !std::isfinite( b ) ) // finite symbolic base
        {
            Poly p = subst( polyOf( a ) );
            if( decideSign( padd( p, constPoly( 1 ), -1 ), ZERO ) )
                return 1.0;
            if( std::isnan( b ) )
                return b;
            Poly m = padd( pmul( p, p ), constPoly( 1 ), -1 ); // p^2 - 1
            if( decideSign( m, ZERO ) )
                return 1.0;
            return decideSign( m, POS ) == ( b > 0 ) ? (double)INFINITY : 0.0;
        }
        if( !isD( a ) && !std::isfinite( a ) ) // finite symbolic exponent
        {
            Poly q = subst( polyOf( b ) );
            if( decideSign( q, ZERO ) )
                return 1.0;
            if( std::isnan( a ) )
                return a;
            if( !decideSign( q, POS ) )
                return 0.0;
            if( a < 0 )
                giveUp( "power of minus infinity" );
            return INFINITY;
        }
        Poly p = subst( polyOf( a ) ), q = subst( polyOf( b ) );
        if( q.isConst() )
        {
            Rat k = q.constVal();
            if( k.get_den() == 1 && abs( k ) <= 12 )
            {
                int n = k.get_num().get_si();
                if( n == 0 )
                    return 1.0;
                if( n > 0 )
                    return mkR( ppow( p, n ) );
                return sx_fbin( 21, 1.0, mkR( ppow( p, -n ) ) );
            }
            if( k == Rat( 1, 2 ) )
                return sx_w_sqrt( a );
        }
        if( p.isConst() && p.constVal() == 1 )
            return 1.0;
        if( decideSign( p, ZERO ) )
        {
            if( decideSign( q, ZERO ) )
                return 1.0;
            return decideSign( q, POS ) ? 0.0 : INFINITY;
        }
        if( decideSign( p, NEG ) )
        {
            if( q.isConst() && q.constVal().get_den() != 1 )
                return NAN;
            giveUp( "pow of a negative symbolic base" );
        }
        if( decideSign( q, ZERO ) )
            return 1.0;
        // (c^y)^z = c^(y z)
        if( p.t.size() == 1 && p.t[0].second == 1 && p.t[0].first.f.size() == 1 )
        {
            auto [at, k] = p.t[0].first.f[0];
            if( atoms[at].fn == "pow" )
                return sx_w_pow( mkR( atoms[at].args[0] ), mkR( scale( pmul( atoms[at].args[1], q ), k ) ) );
            if( k != 1 )
                return sx_w_pow( mkR( atomPoly( at ) ), mkR( scale( q, k ) ) );
        }
        // c^(-y) = 1/c^y
        if( q.t.back().second < 0 )
            return mkR( pinv( polyOf( sx_w_pow( a, mkR( scale( q, -1 ) ) ) ) ) );
        return fnAtom( "pow", { p, q }, [&]( int x ) {
            bound( x, true, 0, true, false, 0, false );
            std::set<int> s = { x };
            atomsInto( s, p );
            atomsInto( s, q );
            // comparison with 1 = 1^q, and with c where c^(1/q) occurs in p
            auto cmp = [&]( const Poly & basediff, const Poly & valdiff ) {
                Z3_ast ep = zEvalCmp( q, POS ), en = zEvalCmp( q, NEG );
                auto imp = [&]( Z3_ast h, Z3_ast c ) { return zor( { keep( Z3_mk_not( Z, h ) ), c } ); };
                addLink( imp( ep, ziff( zEvalCmp( basediff, POS ), zEvalCmp( valdiff, POS ) ) ), s );
                addLink( imp( ep, ziff( zEvalCmp( basediff, NEG ), zEvalCmp( valdiff, NEG ) ) ), s );
                addLink( imp( en, ziff( zEvalCmp( basediff, POS ), zEvalCmp( valdiff, NEG ) ) ), s );
                addLink( imp( en, ziff( zEvalCmp( basediff, NEG ), zEvalCmp( valdiff, POS ) ) ), s );
            };
            cmp( padd( p, constPoly( 1 ), -1 ), padd( atomPoly( x ), constPoly( 1 ), -1 ) );
            for( int at : atomsOf( p ) )
                if( atoms[at].fn == "pow" )
                    for( int sg : { 1, -1 } ) // the atom or its inverse
                    {
                        Poly one = pmul( scale( atoms[at].args[1], sg ), q );
                        if( !one.isConst() || abs( one.constVal() ) != 1 )
                            continue;
                        Poly A = atomPoly( at, sg ), c = atoms[at].args[0];
                        for( int b2 : atomsOf( c ) )
                            s.insert( b2 );
                        if( one.constVal() == 1 )
                            cmp( padd( p, A, -1 ), padd( atomPoly( x ), c, -1 ) );
                        else // compare with 1/c, where c is positive
                            cmp( padd( p, A, -1 ), padd( pmul( atomPoly( x ), c ), constPoly( 1 ), -1 ) );
                    }
        } );
    }
#define UNSUP( n )                                                                                                     \
    double sx_w_##n( double a )                                                                                        \
    {                                                                                                                  \
        return std::n( sx_fconc( a ) );                                                                                \
    }
    double sx_w_fabs( double a );
    long double sx_lconc( long double a )
    {
        return isL( a ) ? (long double)sx_fconc( a ) : a;
    }
#define LONGF( n )                                                                                                     \
    long double sx_w_##n##l( long double a )                                                                           \
    {                                                                                                                  \
        return isL( a ) ? (long double)sx_w_##n( a ) : std::n( a );                                                    \
    }
    LONGF( sqrt )
    LONGF( log )
    LONGF( exp )
    LONGF( fabs )
    LONGF( tanh )
    LONGF( erf )
    long double sx_w_powl( long double a, long double b )
    {
        return isL( a ) || isL( b ) ? (long double)sx_w_pow( a, b ) : std::pow( a, b );
    }
    UNSUP( tan )
    UNSUP( acos )
    UNSUP( asin )
    UNSUP( log10 )
    UNSUP( cbrt )
    double sx_w_cosh( double a )
    {
        if( !isD( a ) )
            return std::cosh( a );
        double p = sx_w_exp( a ), m = sx_w_exp( sx_fneg( a ) );
        return sx_fbin( 18, 0.5, sx_fbin( 14, p, m ) );
    }
    double sx_w_log2( double a )
    {
        if( !isD( a ) )
            return std::log2( a );
        return sx_fbin( 21, sx_w_log( a ), std::log( 2.0 ) );
    }
    double sx_w_exp2( double a )
    {
        return isD( a ) ? sx_w_pow( 2.0, a ) : std::exp2( a );
    }
    double sx_w_atan2( double a, double b )
    {
        return std::atan2( sx_fconc( a ), sx_fconc( b ) );
    }
    double sx_w_hypot( double a, double b )
    {
        if( !isD( a ) && !isD( b ) )
            return std::hypot( a, b );
        return sx_w_sqrt( sx_fbin( 14, sx_fbin( 18, a, a ), sx_fbin( 18, b, b ) ) );
    }
    double sx_w_fmod( double a, double b )
    {
        return sx_fbin( 24, a, b );
    }
    double sx_w_nextafter( double a, double b )
    {
        return isD( a ) ? a : std::nextafter( a, isD( b ) ? INFINITY : b );
    }
    double sx_w_ldexp( double a, int n )
    {
        return isD( a ) ? sx_fbin( 18, a, std::ldexp( 1.0, n ) ) : std::ldexp( a, n );
    }

    // ------------------------------------------------------------- integers
    // LLVM opcodes: Add 13 Sub 15 Mul 17 UDiv 19 SDiv 20 URem 22 SRem 23 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30
    static u64 binSym( int op, unsigned w, u64 a, u64 b )
    {
        Eng e;
        Z3_ast x = bv( a, w ), y = bv( b, w ), r = nullptr;
        if( op == 19 || op == 20 || op == 22 || op == 23 )
            if( decideBV( keep( Z3_mk_eq( Z, y, bvNum( 0, w ) ) ) ) )
            {
                violation( "integer division by zero", {} );
                endPath( "crash" );
            }
        switch( op )
        {
            case 13:
                r = Z3_mk_bvadd( Z, x, y );
                break;
            case 15:
                r = Z3_mk_bvsub( Z, x, y );
                break;
            case 17:
                r = Z3_mk_bvmul( Z, x, y );
                break;
            case 19:
                r = Z3_mk_bvudiv( Z, x, y );
                break;
            case 20:
                r = Z3_mk_bvsdiv( Z, x, y );
                break;
            case 22:
                r = Z3_mk_bvurem( Z, x, y );
                break;
            case 23:
                r = Z3_mk_bvsrem( Z, x, y );
                break;
            case 25:
                r = Z3_mk_bvshl( Z, x, y );
                break;
            case 26:
                r = Z3_mk_bvlshr( Z, x, y );
                break;
            case 27:
                r = Z3_mk_bvashr( Z, x, y );
                break;
            case 28:
                r = Z3_mk_bvand( Z, x, y );
                break;
            case 29:
                r = Z3_mk_bvor( Z, x, y );
                break;
            case 30:
                r = Z3_mk_bvxor( Z, x, y );
                break;
            default:
                giveUp( "unknown integer operation" );
        }
        return fromBV( keep( r ), w );
    }
#define BIN( W, T, S, IS )                                                                                             \
    T sx_bin##W( int op, T a, T b )                                                                                    \
    {                                                                                                                  \
        if( !IS( a ) && !IS( b ) )                                                                                     \
            switch( op )                                                                                               \
            {                                                                                                          \
                case 13:                                                                                               \
                    return a + b;                                                                                      \
                case 15:                                                                                               \
                    return a - b;                                                                                      \
                case 17:                                                                                               \
                    return a * b;                                                                                      \
                case 19:                                                                                               \
                    return a / b;                                                                                      \
                case 20:                                                                                               \
                    return (S)a / (S)b;                                                                                \
                case 22:                                                                                               \
                    return a % b;                                                                                      \
                case 23:                                                                                               \
                    return (S)a % (S)b;                                                                                \
                case 25:                                                                                               \
                    return a << b;                                                                                     \
                case 26:                                                                                               \
                    return a >> b;                                                                                     \
                case 27:                                                                                               \
                    return (S)a >> b;                                                                                  \
                case 28:                                                                                               \
                    return a & b;                                                                                      \
                case 29:                                                                                               \
                    return a | b;                                                                                      \
                case 30:                                                                                               \
                    return a ^ b;                                                                                      \
            }                                                                                                          \
        return (T)binSym( op, W, a, b );                                                                               \
    }
    BIN( 8, uint8_t, int8_t, is8 )
    BIN( 32, uint32_t, int32_t, is32 )
    // masks and shifts that merely move 32 bit halves around keep the halves as they are
    static bool halves( u64 x )
    {
        return !is64h( x ) && is64( x );
    }
    u64 sx_bin64( int op, u64 a, u64 b )
    {
        bool sa = is64( a ), sb = is64( b );
        if( !sa && !sb )
            switch( op )
            {
                case 13:
                    return a + b;
                case 15:
                    return a - b;
                case 17:
                    return a * b;
                case 19:
                    return a / b;
                case 20:
                    return (int64_t)a / (int64_t)b;
                case 22:
                    return a % b;
                case 23:
                    return (int64_t)a % (int64_t)b;
                case 25:
                    return a << b;
                case 26:
                    return a >> b;
                case 27:
                    return (int64_t)a >> b;
                case 28:
                    return a & b;
                case 29:
                    return a | b;
                case 30:
                    return a ^ b;
            }
        if( halves( a ) && !sb )
        {
            if( op == 25 && b == 32 )
                return a << 32;
            if( op == 26 && b == 32 )
                return a >> 32;
            if( op == 28 && ( b == 0xFFFFFFFFull || b == 0xFFFFFFFF00000000ull ) )
                return a & b;
        }
        if( op == 29 && !is64h( a ) && !is64h( b )
            && ( ( (u32)a == 0 && ( b >> 32 ) == 0 ) || ( (u32)b == 0 && ( a >> 32 ) == 0 ) ) )
            return a | b;
        return binSym( op, 64, a, b );
    }
    static bool icmpC( int p, unsigned w, u64 a, u64 b )
    {
        int64_t sa = w == 64 ? (int64_t)a : w == 32 ? (int32_t)a : (int8_t)a;
        int64_t sb = w == 64 ? (int64_t)b : w == 32 ? (int32_t)b : (int8_t)b;
        switch( p )
        {
            case 32:
                return a == b;
            case 33:
                return a != b;
            case 34:
                return a > b;
            case 35:
                return a >= b;
            case 36:
                return a < b;
            case 37:
                return a <= b;
            case 38:
                return sa > sb;
            case 39:
                return sa >= sb;
            case 40:
                return sa < sb;
            default:
                return sa <= sb;
        }
    }
    static bool icmpS( int p, unsigned w, u64 a, u64 b )
    {
        Eng e;
        Z3_ast x = bv( a, w ), y = bv( b, w ), r;
        switch( p )
        {
            case 32:
                r = Z3_mk_eq( Z, x, y );
                break;
            case 33:
                r = Z3_mk_not( Z, keep( Z3_mk_eq( Z, x, y ) ) );
                break;
            case 34:
                r = Z3_mk_bvugt( Z, x, y );
                break;
            case 35:
                r = Z3_mk_bvuge( Z, x, y );
                break;
            case 36:
                r = Z3_mk_bvult( Z, x, y );
                break;
            case 37:
                r = Z3_mk_bvule( Z, x, y );
                break;
            case 38:
                r = Z3_mk_bvsgt( Z, x, y );
                break;
            case 39:
                r = Z3_mk_bvsge( Z, x, y );
                break;
            case 40:
                r = Z3_mk_bvslt( Z, x, y );
                break;
            default:
                r = Z3_mk_bvsle( Z, x, y );
        }
        return decideBV( keep( r ) );
    }
    bool sx_icmp8( int p, uint8_t a, uint8_t b )
    {
        return is8( a ) || is8( b ) ? icmpS( p, 8, a, b ) : icmpC( p, 8, a, b );
    }
    bool sx_icmp32( int p, u32 a, u32 b )
    {
        return is32( a ) || is32( b ) ? icmpS( p, 32, a, b ) : icmpC( p, 32, a, b );
    }
    bool sx_icmp64( int p, u64 a, u64 b )
    {
        return is64( a ) || is64( b ) ? icmpS( p, 64, a, b ) : icmpC( p, 64, a, b );
    }
    uint8_t sx_conc8( uint8_t a )
    {
        if( !is8( a ) )
            return a;
        Eng e;
        return concBV( a, 8 );
    }
    u32 sx_conc32( u32 a )
    {
        if( !is32( a ) )
            return a;
        Eng e;
        return concBV( a, 32 );
    }
    u64 sx_conc64( u64 a )
    {
        if( !is64( a ) )
            return a;
        Eng e;
        return concBV( a, 64 );
    }
    u64 sx_conc( u64 a )
    {
        return sx_conc64( a );
    }
    u32 sx_trunc64_32( u64 a )
    {
        if( !is64h( a ) )
            return a;
        Eng e;
        return fromBV( keep( Z3_mk_extract( Z, 31, 0, bv( a, 64 ) ) ), 32 );
    }
    uint8_t sx_trunc64_8( u64 a )
    {
        if( !is64( a ) )
            return a;
        Eng e;
        return fromBV( keep( Z3_mk_extract( Z, 7, 0, bv( a, 64 ) ) ), 8 );
    }
    uint8_t sx_trunc32_8( u32 a )
    {
        if( !is32( a ) )
            return a;
        Eng e;
        return fromBV( keep( Z3_mk_extract( Z, 7, 0, bv( a, 32 ) ) ), 8 );
    }
#define EXT( NAME, FW, TW, FT, TT, ST, IS, FN )                                                                        \
    TT sx_##NAME##FW##_##TW( FT a )                                                                                    \
    {                                                                                                                  \
        if( !IS( a ) )                                                                                                 \
            return (TT)(ST)a;                                                                                          \
        Eng e;                                                                                                         \
        return (TT)fromBV( keep( FN( Z, TW - FW, bv( a, FW ) ) ), TW );                                                \
    }
    EXT( zext, 8, 32, uint8_t, u32, uint8_t, is8, Z3_mk_zero_ext )
    EXT( zext, 8, 64, uint8_t, u64, uint8_t, is8, Z3_mk_zero_ext )
    EXT( zext, 32, 64, u32, u64, u32, is32, Z3_mk_zero_ext )
    EXT( sext, 8, 32, uint8_t, u32, int8_t, is8, Z3_mk_sign_ext )
    EXT( sext, 8, 64, uint8_t, u64, int8_t, is8, Z3_mk_sign_ext )
    EXT( sext, 32, 64, u32, u64, int32_t, is32, Z3_mk_sign_ext )
    static u64 switchS( u64 x, unsigned w, int n, const u64 * cs )
    {
        for( int i = 0; i < n; i++ )
            if( icmpS( 32, w, x, cs[i] ) )
                return cs[i];
        u64 v = 0;
        for( ;; v++ )
        {
            bool hit = false;
            for( int i = 0; i < n; i++ )
                hit |= cs[i] == v;
            if( !hit )
                return v;
        }
    }
    uint8_t sx_switch8( uint8_t x, int n, const u64 * cs )
    {
        return is8( x ) ? switchS( x, 8, n, cs ) : x;
    }
    u32 sx_switch32( u32 x, int n, const u64 * cs )
    {
        return is32( x ) ? switchS( x, 32, n, cs ) : x;
    }
    u64 sx_switch64( u64 x, int n, const u64 * cs )
    {
        return is64( x ) ? switchS( x, 64, n, cs ) : x;
    }

    // ------------------------------------------------------------- C library functions that look at bytes
    static bool byteIs( unsigned char c, int k )
    {
        return is8( c ) ? icmpS( 32, 8, c, k ) : c == k;
    }
    static bool byteIn( unsigned char c, int lo, int hi )
    {
        if( !is8( c ) )
            return c >= lo && c <= hi;
        return icmpS( 35, 8, c, lo ) && icmpS( 37, 8, c, hi );
    }
    int sx_w_memcmp( const void * p, const void * q, size_t n )
    {
        n = sx_conc64( n );
        const unsigned char *a = (const unsigned char *)p, *b = (const unsigned char *)q;
        if( memcmp( a, b, n ) == 0 )
        {
            // identical representation; symbolic values with the same handle are equal
            return 0;
        }
        // numbers: vectors of 8 or 4 byte integers are compared through memcmp as well
        if( n % 4 == 0 && n > 0 )
        {
            bool any8 = false, any4 = false;
            if( n % 8 == 0 )
                for( size_t i = 0; i < n; i += 8 )
                {
                    u64 x, y;
                    memcpy( &x, a + i, 8 );
                    memcpy( &y, b + i, 8 );
                    any8 |= is64h( x ) || is64h( y );
                }
            for( size_t i = 0; i < n; i += 4 )
            {
                u32 x, y;
                memcpy( &x, a + i, 4 );
                memcpy( &y, b + i, 4 );
                any4 |= is32( x ) || is32( y );
            }
            if( any8 || any4 )
            {
                size_t w = any8 ? 8 : 4;
                for( size_t i = 0; i < n; i += w )
                {
                    u64 x = 0, y = 0;
                    memcpy( &x, a + i, w );
                    memcpy( &y, b + i, w );
                    bool ne = w == 8 ? sx_icmp64( 33, x, y ) : sx_icmp32( 33, x, y );
                    if( ne )
                        return 1; // only the equality outcome is used on numbers
                }
                return 0;
            }
        }
        for( size_t i = 0; i < n; i++ )
        {
            if( is8( a[i] ) || is8( b[i] ) )
            {
                if( icmpS( 33, 8, a[i], b[i] ) )
                    return icmpS( 36, 8, a[i], b[i] ) ? -1 : 1;
            }
            else if( a[i] != b[i] )
                return a[i] < b[i] ? -1 : 1;
        }
        return 0;
    }
    int sx_w_bcmp( const void * p, const void * q, size_t n )
    {
        return sx_w_memcmp( p, q, n );
    }
    const void * sx_w_memchr( const void * p, int c, size_t n )
    {
        n = sx_conc64( n );
        const unsigned char * a = (const unsigned char *)p;
        c                       = sx_conc32( c );
        for( size_t i = 0; i < n; i++ )
            if( byteIs( a[i], (unsigned char)c ) )
                return a + i;
        return nullptr;
    }
    size_t sx_w_strlen( const char * s )
    {
        size_t i = 0;
        while( !byteIs( s[i], 0 ) )
            i++;
        return i;
    }
    int sx_w_strncmp( const char * a, const char * b, size_t n )
    {
        for( size_t i = 0; i < n; i++ )
        {
            unsigned char x = a[i], y = b[i];
            if( is8( x ) || is8( y ) )
            {
                if( icmpS( 33, 8, x, y ) )
                    return icmpS( 36, 8, x, y ) ? -1 : 1;
            }
            else if( x != y )
                return x < y ? -1 : 1;
            if( byteIs( x, 0 ) )
                return 0;
        }
        return 0;
    }
    int sx_w_strcmp( const char * a, const char * b )
    {
        return sx_w_strncmp( a, b, SIZE_MAX );
    }
    int sx_w_isspace( int c )
    {
        if( is32( c ) )
            return icmpS( 32, 32, c, ' ' ) || ( icmpS( 35, 32, c, 9 ) && icmpS( 37, 32, c, 13 ) );
        return c == ' ' || ( c >= 9 && c <= 13 );
    }
    int sx_w_isdigit( int c )
    {
        return sx_icmp32( 35, c, '0' ) && sx_icmp32( 37, c, '9' );
    }
    int sx_w_isalpha( int c )
    {
        return ( sx_icmp32( 35, c, 'a' ) && sx_icmp32( 37, c, 'z' ) ) || ( sx_icmp32( 35, c, 'A' ) && sx_icmp32( 37, c, 'Z' ) );
    }
    int sx_w_isalnum( int c )
    {
        return sx_w_isdigit( c ) || sx_w_isalpha( c );
    }
    int sx_w_tolower( int c )
    {
        return sx_icmp32( 35, c, 'A' ) && sx_icmp32( 37, c, 'Z' ) ? (int)sx_bin32( 13, c, 32 ) : c;
    }
    int sx_w_toupper( int c )
    {
        return sx_icmp32( 35, c, 'a' ) && sx_icmp32( 37, c, 'z' ) ? (int)sx_bin32( 15, c, 32 ) : c;
    }
    static bool hasCarrier( const char * s )
    {
        for( ; *s; s++ )
            if( is8( *s ) )
                return true;
        return false;
    }
    static const char * skipSpace( const char * s )
    {
        while( byteIs( *s, ' ' ) || byteIn( *s, 9, 13 ) )
            s++;
        return s;
    }
    // decimal integers; value as a 64 bit expression; ovf: out of range
    static u64 parseInt( const char * s, char ** end, bool & neg, bool & any, bool & ovf, int base )
    {
        if( base != 10 )
            giveUp( "symbolic text parsed in a base other than ten" );
        const char * p = skipSpace( s );
        neg            = false;
        if( byteIs( *p, '-' ) )
            neg = true, p++;
        else if( byteIs( *p, '+' ) )
            p++;
        u64 v = 0;
        any = ovf = false;
        while( byteIn( *p, '0', '9' ) )
        {
            u64 d = sx_bin64( 15, sx_zext8_64( *p ), '0' );
            if( sx_icmp64( 34, v, ( UINT64_MAX - 9 ) / 10 ) )
                ovf = true;
            v   = sx_bin64( 13, sx_bin64( 17, v, 10 ), d );
            any = true;
            p++;
        }
        if( end )
            *end = (char *)( any ? p : s );
        return v;
    }
    long sx_w_strtol( const char * s, char ** end, int base )
    {
        if( !hasCarrier( s ) )
        {
            // an int printed by fmt: its text is the handle
            long v = strtol( s, end, base );
            return v >= 0 && v <= UINT32_MAX && is32( (u32)v ) ? (long)sx_sext32_64( (u32)v ) : v;
        }
        bool neg, any, ovf;
        u64 v = parseInt( s, end, neg, any, ovf, base );
        if( ovf || sx_icmp64( 34, v, LONG_MAX ) )
        {
            errno = ERANGE;
            return neg ? LONG_MIN : LONG_MAX;
        }
        return (long)( neg ? sx_bin64( 15, 0, v ) : v );
    }
    unsigned long sx_w_strtoul( const char * s, char ** end, int base )
    {
        if( !hasCarrier( s ) )
            return strtoul( s, end, base );
        bool neg, any, ovf;
        u64 v = parseInt( s, end, neg, any, ovf, base );
        if( ovf )
        {
            errno = ERANGE;
            return ULONG_MAX;
        }
        return neg ? sx_bin64( 15, 0, v ) : v;
    }
    long long sx_w_strtoll( const char * s, char ** end, int base )
    {
        return sx_w_strtol( s, end, base );
    }
    unsigned long long sx_w_strtoull( const char * s, char ** end, int base )
    {
        return sx_w_strtoul( s, end, base );
    }
    int sx_w_atoi( const char * s )
    {
        return (int)sx_trunc64_32( sx_w_strtol( s, nullptr, 10 ) );
    }
    long sx_w_atol( const char * s )
    {
        return sx_w_strtol( s, nullptr, 10 );
    }
    static int freshReal = 0;
    double sx_w_strtod( const char * s, char ** end )
    {
        if( !hasCarrier( s ) )
            return strtod( s, end );
        // decimal notation without symbolic "inf"/"nan"/hexadecimal letters beyond the first character
        const char * p = skipSpace( s );
        bool neg       = false;
        if( byteIs( *p, '-' ) )
            neg = true, p++;
        else if( byteIs( *p, '+' ) )
            p++;
        auto lower = [&]( unsigned char c, char k ) { return byteIs( c, k ) || byteIs( c, k - 32 ); };
        if( lower( *p, 'i' ) && lower( p[1], 'n' ) && lower( p[2], 'f' ) )
        {
            if( end )
                *end = (char *)p + 3;
            return neg ? -INFINITY : INFINITY;
        }
        if( lower( *p, 'n' ) && lower( p[1], 'a' ) && lower( p[2], 'n' ) )
        {
            if( end )
                *end = (char *)p + 3;
            return NAN;
        }
        bool any = false, nz = false;
        auto digits = [&]() {
            while( byteIn( *p, '0', '9' ) )
            {
                if( !byteIs( *p, '0' ) )
                    nz = true;
                any = true;
                p++;
            }
        };
        digits();
        if( byteIs( *p, '.' ) && ( any || byteIn( p[1], '0', '9' ) ) )
        {
            p++;
            digits();
        }
        if( !any )
        {
            if( end )
                *end = (char *)s;
            return 0.0;
        }
        if( lower( *p, 'e' ) )
        {
            const char * q = p + 1;
            if( byteIs( *q, '-' ) || byteIs( *q, '+' ) )
                q++;
            if( byteIn( *q, '0', '9' ) )
            {
                while( byteIn( *q, '0', '9' ) )
                    q++;
                p = q;
            }
        }
        if( end )
            *end = (char *)p;
        if( !nz )
            return neg ? -0.0 : 0.0;
        // the value itself is left arbitrary
        Eng e;
        int a = newAtom( "text" + std::to_string( freshReal++ ) );
        if( neg )
            bound( a, false, 0, false, true, 0, true );
        else
            bound( a, true, 0, true, false, 0, false );
        return mkR( atomPoly( a ) );
    }
    double sx_w_atof( const char * s )
    {
        return sx_w_strtod( s, nullptr );
    }

    // ------------------------------------------------------------- harness interface
    static std::string uniq( const char * name )
    {
        int n = nameCount[name]++;
        return n ? std::string( name ) + "#" + std::to_string( n ) : name;
    }
    static u64 newBV( const std::string & name, unsigned w, char kind, bool sgn )
    {
        Z3_ast z = zvar( name + "!" + std::to_string( inputs.size() ), bvSort( w ) );
        Input in;
        in.name = name, in.kind = kind, in.bv = z, in.sgn = sgn;
        inputs.push_back( in );
        int id = btab.size();
        btab.push_back( { z, w } );
        bkey[z] = id;
        if( w == 64 )
            return (u64)M64 << 32 | id;
        if( w == 32 )
            return M32 | id;
        if( carriers.size() >= 128 )
            giveUp( "too many symbolic bytes" );
        carrierOf[id] = carriers.size();
        carriers.push_back( id );
        return 0x80 + carriers.size() - 1;
    }
    static void constInput( const std::string & name, char kind, u64 v )
    {
        Input in;
        in.name = name, in.kind = kind, in.val = v;
        inputs.push_back( in );
    }
    uint64_t sx_range( const char * name, uint64_t lo, uint64_t hi )
    {
        Eng e;
        std::string n = uniq( name );
        u64 h         = newBV( n, 64, 'b', false );
        if( lo )
            bvAssert( keep( Z3_mk_bvuge( Z, bv( h, 64 ), bv( lo, 64 ) ) ), false );
        if( hi != UINT64_MAX )
            bvAssert( keep( Z3_mk_bvule( Z, bv( h, 64 ), bv( hi, 64 ) ) ), false );
        return h;
    }
    int64_t sx_lrange( const char * name, int64_t lo, int64_t hi )
    {
        Eng e;
        u64 h = newBV( uniq( name ), 64, 'b', true );
        bvAssert( keep( Z3_mk_bvsge( Z, bv( h, 64 ), bv( lo, 64 ) ) ), false );
        bvAssert( keep( Z3_mk_bvsle( Z, bv( h, 64 ), bv( hi, 64 ) ) ), false );
        return h;
    }
    int32_t sx_irange( const char * name, int32_t lo, int32_t hi )
    {
        Eng e;
        u64 h = newBV( uniq( name ), 32, 'b', true );
        bvAssert( keep( Z3_mk_bvsge( Z, bv( h, 32 ), bv( (u32)lo, 32 ) ) ), false );
        bvAssert( keep( Z3_mk_bvsle( Z, bv( h, 32 ), bv( (u32)hi, 32 ) ) ), false );
        return (int32_t)h;
    }
    unsigned char sx_byte( const char * name )
    {
        Eng e;
        return newBV( uniq( name ), 8, 'b', false );
    }
    static double newReal( const std::string & name, char kind, Ival iv, u64 seed = 0, u64 ctr = 0 )
    {
        int a       = newAtom( name );
        atoms[a].iv = iv;
        Input in;
        in.name = name, in.kind = kind, in.atom = a, in.seed = seed, in.ctr = ctr;
        inputs.push_back( in );
        return mkR( atomPoly( a ) );
    }
    double sx_real( const char * name, double lo, double hi )
    {
        Eng e;
        Ival iv;
        iv.hasLo = iv.hasHi = true;
        iv.lo = ratOf( lo ), iv.hi = ratOf( hi );
        return newReal( uniq( name ), 'r', iv );
    }
    double sx_anyreal( const char * name )
    {
        Eng e;
        return newReal( uniq( name ), 'r', Ival{} );
    }
    int sx_choice( const char * name, int n )
    {
        Eng e;
        std::string nm = uniq( name );
        int v;
        if( replaying() )
        {
            u64 d = prefix[cur];
            record( d );
            if( ( d >> 8 ) != 5 )
                giveUp( "internal: replay diverged (choice)" );
            v = prefix[cur];
            record( v );
        }
        else
        {
            for( int i = 1; i < n; i++ )
            {
                std::vector<u64> a = taken;
                a.push_back( 5 << 8 );
                a.push_back( i );
                st.forks++;
                sendMsg( 'A', std::string( (char *)a.data(), a.size() * 8 ) );
            }
            v = 0;
            record( 5 << 8 );
            record( 0 );
        }
        constInput( nm, 'c', v );
        return v;
    }
    long sx_param( int i )
    {
        return i < (int)g_params.size() ? g_params[i] : 0;
    }
    void sx_option( const char * name, long v )
    {
        std::string n = name;
        if( n == "termination" )
            opt_termination = v;
        else if( n == "open" )
            opt_openu = v;
        else if( n == "mono" )
            opt_mono = v;
        else if( n == "maxenum" )
            opt_maxenum = v;
        else if( n == "steps" )
            g_steplimit = v;
        else
            giveUp( "unknown option" );
    }
    bool sx_issym( double x )
    {
        return isD( x );
    }
    void sx_assume( bool c )
    {
        if( !c )
            endPath( "assumed" );
    }
    void sx_assert_( bool c, const char * msg )
    {
        Eng e;
        st.asserts++;
        if( c )
            return;
        violation( msg, {} );
        endPath( "violated" );
    }
    void sx_fail( const char * msg )
    {
        sx_assert_( false, msg );
    }
    void sx_reach( const char * m )
    {
        Eng e;
        sendMsg( 'R', m );
    }
    // The probability that the draws lead here, under independent uniform draws: the integer draws that take
    // this path are counted by the solver, real draws must be restricted to intervals.
    static Rat measureInts( Z3_solver in, Z3_solver out, const std::vector<const Input *> & d, size_t k )
    {
        checkTime();
        auto a = checkTimed( in );
        if( a == Z3_L_FALSE )
            return 0;
        auto b = checkTimed( out ); // some values of the remaining draws lead elsewhere
        if( a == Z3_L_UNDEF || b == Z3_L_UNDEF )
            giveUp( "the solver could not count the draws" );
        if( b == Z3_L_FALSE )
            return 1;
        if( k == d.size() )
            giveUp( "the outcome does not only depend on the draws" );
        Rat sum   = 0;
        u64 range = d[k]->hi - d[k]->lo + 1;
        Z3_solver_push( Z, in );
        std::vector<u64> vals;
        while( checkTimed( in ) == Z3_L_TRUE )
        {
            Z3_model m = Z3_solver_get_model( Z, in );
            Z3_model_inc_ref( Z, m );
            Z3_ast x = nullptr;
            u64 y    = 0;
            Z3_model_eval( Z, m, d[k]->bv, true, &x );
            Z3_get_numeral_uint64( Z, x, &y );
            Z3_model_dec_ref( Z, m );
            vals.push_back( y );
            if( vals.size() > 5000 )
                giveUp( "too many draws to count" );
            Z3_solver_assert( Z, in, keep( Z3_mk_not( Z, keep( Z3_mk_eq( Z, d[k]->bv, bvNum( y, 64 ) ) ) ) ) );
        }
        Z3_solver_pop( Z, in, 1 );
        for( u64 v : vals )
        {
            Z3_ast eq = keep( Z3_mk_eq( Z, d[k]->bv, bvNum( v, 64 ) ) );
            Z3_solver_push( Z, in ), Z3_solver_push( Z, out );
            Z3_solver_assert( Z, in, eq ), Z3_solver_assert( Z, out, eq );
            sum += measureInts( in, out, d, k + 1 );
            Z3_solver_pop( Z, in, 1 ), Z3_solver_pop( Z, out, 1 );
        }
        return sum / Rat( mpz_class( std::to_string( range ) ) );
    }
    void sx_outcome( const char * group, const char * outcome, long num, long den )
    {
        Eng e;
        Rat weight = 1;
        // real draws: restricted to intervals, and ordered among each other
        auto cannot = []() { giveUp( "the probability of this outcome cannot be measured" ); };
        std::map<int, size_t> where; // atom -> index of the draw
        std::vector<Rat> lo, hi;
        std::vector<std::set<size_t>> below; // draws that have to be smaller
        std::vector<char> draws;
        for( auto & i : inputs )
            if( i.atom >= 0 )
            {
                where[i.atom] = lo.size();
                lo.push_back( 0 ), hi.push_back( 1 ), below.push_back( {} ), draws.push_back( i.kind == 'u' );
            }
        for( auto & c : cons )
        {
            auto s = atomsOf( c.p );
            std::vector<size_t> used;
            for( int a : s )
                if( where.count( a ) )
                    used.push_back( where[a] );
            if( used.empty() || ( c.mask & NEG && c.mask & POS ) )
                continue;
            std::vector<std::pair<size_t, Rat>> lin;
            Rat rest = 0;
            for( auto & [m, q] : c.p.t )
                if( m.f.empty() )
                    rest = q;
                else if( m.f.size() == 1 && where.count( m.f[0].first ) && m.f[0].second == 1 )
                    lin.push_back( { where[m.f[0].first], q } );
                else
                    cannot();
            for( auto & [i, q] : lin )
                if( !draws[i] )
                    cannot();
            bool pos = c.mask & POS, equal = !( c.mask & ( NEG | POS ) );
            if( equal )
                weight = 0;
            else if( lin.size() == 1 )
            {
                auto [i, q] = lin[0];
                Rat root    = -rest / q;
                if( ( q > 0 ) == pos )
                    lo[i] = std::max( lo[i], root );
                else
                    hi[i] = std::min( hi[i], root );
            }
            else if( lin.size() == 2 && rest == 0 && lin[0].second == -lin[1].second )
            {
                size_t large = ( lin[0].second > 0 ) == pos ? lin[0].first : lin[1].first;
                below[large].insert( large == lin[0].first ? lin[1].first : lin[0].first );
            }
            else
                cannot();
        }
        // draws of one component fall into the cells between all bounds; within a cell every order is equally likely
        std::vector<int> comp( lo.size() );
        for( size_t i = 0; i < comp.size(); i++ )
            comp[i] = i;
        for( size_t i = 0; i < comp.size(); i++ )
            for( size_t j : below[i] )
                for( int a = comp[i], b = comp[j]; auto & x : comp )
                    if( x == a )
                        x = b;
        for( size_t c = 0; c < comp.size(); c++ )
        {
            std::vector<size_t> mem;
            for( size_t i = 0; i < comp.size(); i++ )
                if( comp[i] == (int)c )
                    mem.push_back( i );
            if( mem.empty() )
                continue;
            if( mem.size() > 6 )
                cannot();
            std::set<Rat> cuts = { 0, 1 };
            for( size_t i : mem )
                cuts.insert( lo[i] ), cuts.insert( hi[i] );
            std::vector<Rat> cut( cuts.begin(), cuts.end() );
            std::map<size_t, size_t> cell;
            std::function<Rat( size_t )> place = [&]( size_t k ) -> Rat
            {
                Rat sum = 0;
                if( k < mem.size() )
                {
                    for( size_t z = 0; z + 1 < cut.size(); z++ )
                        if( cut[z] >= lo[mem[k]] && cut[z + 1] <= hi[mem[k]] )
                        {
                            cell[mem[k]] = z;
                            sum += ( cut[z + 1] - cut[z] ) * place( k + 1 );
                        }
                    return sum;
                }
                std::map<size_t, std::vector<size_t>> in;
                for( size_t i : mem )
                {
                    in[cell[i]].push_back( i );
                    for( size_t j : below[i] )
                        if( cell[j] > cell[i] )
                            return 0;
                }
                Rat p = 1;
                for( auto & [z, v] : in )
                {
                    long good = 0, all = 0;
                    do
                    {
                        all++;
                        bool ok = true;
                        for( size_t x = 0; x < v.size() && ok; x++ )
                            for( size_t y = x + 1; y < v.size() && ok; y++ )
                                ok = !below[v[x]].count( v[y] );
                        good += ok;
                    } while( std::next_permutation( v.begin(), v.end() ) );
                    p *= Rat( good, all );
                }
                return p;
            };
            weight *= place( 0 );
        }
        // integer draws
        std::vector<const Input *> d;
        std::vector<Z3_ast> ranges, rest;
        for( auto & i : inputs )
            if( i.kind == 'i' )
            {
                if( i.lo == i.hi )
                    giveUp( "a draw's range is not fixed" );
                d.push_back( &i );
                ranges.push_back( keep( ( i.sgn ? Z3_mk_bvsge : Z3_mk_bvuge )( Z, i.bv, bvNum( i.lo, 64 ) ) ) );
                ranges.push_back( keep( ( i.sgn ? Z3_mk_bvsle : Z3_mk_bvule )( Z, i.bv, bvNum( i.hi, 64 ) ) ) );
            }
        // constraints that share no draw are counted separately
        std::vector<std::pair<std::set<size_t>, std::vector<Z3_ast>>> parts;
        for( auto c : bvCons )
        {
            std::set<Z3_ast> seen;
            std::set<size_t> used;
            std::vector<Z3_ast> todo = { c };
            while( !todo.empty() )
            {
                Z3_ast x = todo.back();
                todo.pop_back();
                if( !seen.insert( x ).second || Z3_get_ast_kind( Z, x ) != Z3_APP_AST )
                    continue;
                for( size_t i = 0; i < d.size(); i++ )
                    if( d[i]->bv == x )
                        used.insert( i );
                auto app = Z3_to_app( Z, x );
                for( unsigned i = 0; i < Z3_get_app_num_args( Z, app ); i++ )
                    todo.push_back( keep( Z3_get_app_arg( Z, app, i ) ) );
            }
            std::vector<Z3_ast> cs = { c };
            for( size_t i = 0; i < parts.size(); )
                if( std::any_of( used.begin(), used.end(), [&]( size_t u ) { return parts[i].first.count( u ); } ) )
                {
                    used.insert( parts[i].first.begin(), parts[i].first.end() );
                    cs.insert( cs.end(), parts[i].second.begin(), parts[i].second.end() );
                    parts.erase( parts.begin() + i );
                }
                else
                    i++;
            parts.push_back( { used, cs } );
        }
        for( auto & [used, cs] : parts )
        {
            Z3_solver in = Z3_mk_simple_solver( Z );
            Z3_solver_inc_ref( Z, in );
            Z3_solver out = Z3_mk_simple_solver( Z );
            Z3_solver_inc_ref( Z, out );
            setTimeout( in, g_qtimeout ), setTimeout( out, g_qtimeout );
            std::vector<const Input *> mine;
            for( size_t i : used )
            {
                mine.push_back( d[i] );
                for( int k = 0; k < 2; k++ )
                    Z3_solver_assert( Z, in, ranges[2 * i + k] ), Z3_solver_assert( Z, out, ranges[2 * i + k] );
            }
            for( auto c : cs )
                Z3_solver_assert( Z, in, c );
            Z3_solver_assert( Z, out, keep( Z3_mk_not( Z, keep( Z3_mk_and( Z, cs.size(), cs.data() ) ) ) ) );
            weight *= measureInts( in, out, mine, 0 );
            Z3_solver_dec_ref( Z, in ), Z3_solver_dec_ref( Z, out );
        }
        st.asserts++;
        violation( std::string( group ) + "\t" + outcome + "\t" + Rat( num, den ).get_str() + "\t" + weight.get_str(), {},
                   nullptr, 'O', 1 );
    }
    static std::string show( double d )
    {
        if( !isD( d ) )
        {
            char b[64];
            snprintf( b, sizeof b, "%.17g", d );
            return b;
        }
        std::string s;
        for( auto & [m, c] : polyOf( d ).t )
        {
            if( s.size() > 300 )
                return s + "...";
            s += ( s.empty() ? "" : " + " ) + std::to_string( c.get_d() );
            for( auto & [a, k] : m.f )
                s += "*" + atoms[a].name + ( k == 1 ? "" : "^" + std::to_string( k ) );
        }
        return s;
    }
    // claim: the difference never leaves [-tol, tol] (tol = 0: is zero)
    static void claim( double a, double b, Rat tol, bool le, const char * msg )
    {
        Eng e;
        st.asserts++;
        auto bad = [&]( const Query & q ) {
            violation( std::string( msg ) + ": " + show( a ) + " versus " + show( b ), q );
            endPath( "violated" );
        };
        if( !isD( a ) && !isD( b ) )
        {
            if( std::isnan( a ) || std::isnan( b ) )
            {
                if( std::isnan( a ) && std::isnan( b ) && !le )
                    return;
                bad( {} );
            }
            if( std::isinf( a ) || std::isinf( b ) )
            {
                if( le ? a <= b : a == b )
                    return;
                bad( {} );
            }
        }
        else if( spec( a, b ) )
        {
            if( le && ( ( std::isinf( b ) && b > 0 ) || ( std::isinf( a ) && a < 0 ) ) )
                return;
            bad( {} );
        }
        Poly d = subst( padd( polyOf( a ), polyOf( b ), -1 ) );
        if( hasInv( d ) )
        {
            Poly c = clear( d );
            if( c.t.empty() )
                d = Poly{};
        }
        if( d.isConst() )
        {
            Rat v = d.constVal();
            if( ( le ? v : abs( v ) ) <= tol )
            {
                st.trivial++;
                return;
            }
            bad( {} );
        }
        Ival iv = ivOf( d );
        if( iv.hasHi && iv.hi <= tol && ( le || ( iv.hasLo && iv.lo >= -tol ) ) )
        {
            st.trivial++;
            return;
        }
        for( int side = 0; side < ( le ? 1 : 2 ); side++ )
        {
            Query q;
            // d > tol, or d < -tol
            q.cs.push_back( { padd( d, constPoly( side ? Rat( -tol ) : tol ), -1 ), side ? NEG : POS } );
            auto r = solveReal( q, false );
            if( r == Z3_L_TRUE )
                bad( q );
            if( r == Z3_L_UNDEF )
                inconclusive( std::string( "solver gave up on: " ) + msg );
        }
    }
    void sx_close_( double a, double b, double tol, const char * msg )
    {
        claim( a, b, ratOf( tol ), false, msg );
    }
    void sx_same_( double a, double b, const char * msg )
    {
        claim( a, b, 0, false, msg );
    }
    void sx_le_( double a, double b, double tol, const char * msg )
    {
        claim( a, b, ratOf( tol ), true, msg );
    }

    void sx_any_( const double * a, const double * b, const bool * orEqual, size_t n, const char * msg )
    {
        Eng e;
        st.asserts++;
        Query q;
        for( size_t i = 0; i < n; i++ )
        {
            if( !isD( a[i] ) && !isD( b[i] ) )
            {
                if( orEqual[i] ? a[i] <= b[i] : a[i] < b[i] )
                {
                    st.trivial++;
                    return;
                }
                continue;
            }
            if( spec( a[i], b[i] ) )
            {
                bool inf = ( std::isinf( b[i] ) && b[i] > 0 ) || ( std::isinf( a[i] ) && a[i] < 0 );
                if( inf )
                    return;
                continue;
            }
            Poly d = subst( padd( polyOf( a[i] ), polyOf( b[i] ), -1 ) );
            int m  = orEqual[i] ? POS : POS | ZERO; // how it fails
            if( d.isConst() )
            {
                int sg = sgn( d.constVal() );
                if( !( m & ( sg < 0 ? NEG : sg > 0 ? POS : ZERO ) ) )
                {
                    st.trivial++;
                    return;
                }
                continue;
            }
            bool f;
            Poly np = normP( d, f );
            auto it = signs.find( np.key() );
            if( it != signs.end() && !( it->second & ( f ? flipMask( m ) : m ) ) )
            {
                st.trivial++;
                return;
            }
            q.cs.push_back( { d, m } );
        }
        auto r = q.cs.empty() ? Z3_L_TRUE : solveReal( q, false );
        if( r == Z3_L_TRUE )
        {
            violation( msg, q );
            endPath( "violated" );
        }
        if( r == Z3_L_UNDEF )
            inconclusive( std::string( "solver gave up on: " ) + msg );
    }

    // ------------------------------------------------------------- randomness
    static std::map<std::string, u64> draws;
    static std::string dkey( char k, u64 seed, u64 ctr, u64 a = 0, u64 b = 0 )
    {
        return k + std::to_string( seed ) + ":" + std::to_string( ctr ) + ":" + std::to_string( a ) + ":"
               + std::to_string( b );
    }
    double sx_draw_u01( uint64_t seed, uint64_t ctr )
    {
        Eng e;
        auto k  = dkey( 'u', seed, ctr );
        auto it = draws.find( k );
        if( it != draws.end() )
            return dblOf( it->second );
        Ival iv;
        iv.hasLo = iv.hasHi = true;
        iv.lo = 0, iv.hi = 1;
        iv.openLo = opt_openu, iv.openHi = true;
        double d = newReal( "u" + std::to_string( ctr ), 'u', iv, seed, ctr );
        draws[k] = bitsOf( d );
        return d;
    }
    double sx_draw_normal( uint64_t seed, uint64_t ctr )
    {
        Eng e;
        auto k  = dkey( 'n', seed, ctr );
        auto it = draws.find( k );
        if( it != draws.end() )
            return dblOf( it->second );
        double d = newReal( "z" + std::to_string( ctr ), 'n', Ival{}, seed, ctr );
        draws[k] = bitsOf( d );
        return d;
    }
    static u64 drawInt( u64 seed, u64 ctr, u64 lo, u64 hi, bool sgn )
    {
        Eng e;
        if( lo == hi )
            return lo;
        auto k  = dkey( 'i', seed, ctr, lo, hi );
        auto it = draws.find( k );
        if( it != draws.end() )
            return it->second;
        u64 h            = newBV( "d" + std::to_string( ctr ), 64, 'i', sgn );
        inputs.back().seed = seed;
        inputs.back().ctr  = ctr;
        if( !is64( lo ) && !is64( hi ) )
            inputs.back().lo = lo, inputs.back().hi = hi;
        bvAssert( keep( ( sgn ? Z3_mk_bvsge : Z3_mk_bvuge )( Z, bv( h, 64 ), bv( lo, 64 ) ) ), false );
        bvAssert( keep( ( sgn ? Z3_mk_bvsle : Z3_mk_bvule )( Z, bv( h, 64 ), bv( hi, 64 ) ) ), false );
        draws[k] = h;
        return h;
    }
    static void drawEmpty()
    {
        violation( "an integer is drawn from an empty range", {} );
        endPath( "violated" );
    }
    uint64_t sx_draw_int( uint64_t seed, uint64_t ctr, uint64_t lo, uint64_t hi )
    {
        if( sx_icmp64( 34, lo, hi ) )
            drawEmpty();
        return drawInt( seed, ctr, lo, hi, false );
    }
    int64_t sx_draw_sint( uint64_t seed, uint64_t ctr, int64_t lo, int64_t hi )
    {
        if( sx_icmp64( 38, lo, hi ) )
            drawEmpty();
        return drawInt( seed, ctr, lo, hi, true );
    }
    uint32_t sx_draw_raw( uint64_t seed, uint64_t ctr )
    {
        Eng e;
        auto k  = dkey( 'w', seed, ctr );
        auto it = draws.find( k );
        if( it != draws.end() )
            return it->second;
        u64 h              = newBV( "w" + std::to_string( ctr ), 32, 'w', false );
        inputs.back().seed = seed;
        inputs.back().ctr  = ctr;
        draws[k]           = h;
        return h;
    }
} // extern "C"

// Sizes no machine can provide fail like on a real system.
void * operator new( size_t n )
{
    if( n > ( 1ull << 30 ) )
        throw std::bad_alloc();
    void * p = malloc( n ? n : 1 );
    if( !p )
        throw std::bad_alloc();
    return p;
}
void * operator new[]( size_t n )
{
    return operator new( n );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}

// ------------------------------------------------------------- coordinator
static std::string jesc( const std::string & s )
{
    std::string r = "\"";
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' )
            r += '\\', r += c;
        else if( c < 32 || c > 126 )
        {
            char b[8];
            snprintf( b, 8, "\\u%04x", c );
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}
static int rmOne( const char * p, const struct stat *, int, struct FTW * )
{
    return remove( p );
}
static void rmTree( const std::string & d )
{
    if( d.find( "/sx" ) == std::string::npos )
        return;
    if( rmdir( d.c_str() ) == 0 )
        return;
    nftw( d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS );
}
static void runPath( int fd, const std::string & dir, const std::vector<u64> & pre )
{
    g_fd = fd;
    mkdir( dir.c_str(), 0777 );
    if( chdir( dir.c_str() ) )
        _exit( 70 );
    if( !getenv( "SX_VERBOSE" ) )
    {
        int n = open( "/dev/null", O_RDWR );
        dup2( n, 0 );
        dup2( n, 1 );
        dup2( n, 2 );
    }
    rlimit rl = { 0, 0 };
    setrlimit( RLIMIT_CORE, &rl );
    pathStart = now();
    stack_t ss{};
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack( &ss, nullptr );
    struct sigaction sa{};
    sa.sa_handler = onSignal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL } )
        sigaction( s, &sa, nullptr );
    __sanitizer_set_death_callback( asanDeath );
    prefix = pre;
    try
    {
        sx_main();
    }
    catch( std::exception & ex )
    {
        Eng e;
        violation( std::string( "unexpected exception: " ) + ex.what(), {} );
        endPath( "violated" );
    }
    catch( ... )
    {
        Eng e;
        violation( "unexpected exception", {} );
        endPath( "violated" );
    }
    if( cur < prefix.size() )
        giveUp( "internal: path shorter than its prefix" );
    if( g_sample ) // an input of this path, run natively to validate the encoding
        violation( "sampled path", {}, nullptr, 'P', 1 );
    endPath( "done" );
}
int main( int argc, char ** argv )
{
    std::string out = "result.json", scratch = "/tmp";
    for( int i = 1; i < argc; i++ )
    {
        std::string a = argv[i];
        auto next     = [&]() { return std::string( argv[++i] ); };
        if( a == "--jobs" )
            g_jobs = stoi( next() );
        else if( a == "--time" )
            g_time = stod( next() );
        else if( a == "--paths" )
            g_maxpaths = stol( next() );
        else if( a == "--qtimeout" )
            g_qtimeout = stol( next() );
        else if( a == "--pathtime" )
            g_pathtime = stod( next() );
        else if( a == "--seed" )
            g_seed = stoul( next() );
        else if( a == "--out" )
            out = next();
        else if( a == "--scratch" )
            scratch = next();
        else
            g_params.push_back( stol( a ) );
    }
    char base[4096];
    snprintf( base, sizeof base, "%s/sxXXXXXX", scratch.c_str() );
    if( !mkdtemp( base ) )
        return 3;
    initZ3();
    struct Work
    {
        pid_t pid;
        int fd;
        std::string buf, dir;
        std::vector<u64> pre;
        double start;
        bool ended = false;
    };
    std::list<Work> live;
    std::vector<std::vector<u64>> todo = { {} };
    struct Outcome
    {
        std::string expect, witness;
        Rat total = 0;
    };
    std::map<std::pair<std::string, std::string>, Outcome> outcomes;
    std::set<std::string> fns, reach, incon;
    std::map<std::string, long> ends;
    std::vector<std::string> viol, samples;
    std::set<std::string> violMsg;
    Stats T;
    long paths = 0, nSampled = 0;
    double t0  = now();
    bool stop  = false;
    double lastPrint = t0;
    std::string sample;
    while( !stop && ( !todo.empty() || !live.empty() ) )
    {
        while( (int)live.size() < g_jobs && !todo.empty() )
        {
            int pp[2];
            if( pipe( pp ) )
                return 3;
            std::vector<u64> pre = todo.back();
            todo.pop_back();
            std::string dir = std::string( base ) + "/p" + std::to_string( paths );
            paths++;
            fflush( stdout );
            pid_t p = fork();
            if( p == 0 )
            {
                close( pp[0] );
                for( auto & w : live )
                    close( w.fd );
                g_sample = nSampled < 6 && ( paths & ( paths - 1 ) ) == 0;
                runPath( pp[1], dir, pre );
                _exit( 0 );
            }
            close( pp[1] );
            live.push_back( { p, pp[0], "", dir, pre, now() } );
        }
        std::vector<pollfd> pf;
        for( auto & w : live )
            pf.push_back( { w.fd, POLLIN, 0 } );
        poll( pf.data(), pf.size(), 200 );
        size_t i = 0;
        for( auto it = live.begin(); it != live.end(); )
        {
            auto & w  = *it;
            bool gone = false;
            if( pf[i].revents )
            {
                char b[65536];
                ssize_t n = read( w.fd, b, sizeof b );
                if( n <= 0 )
                    gone = true;
                else
                    w.buf.append( b, n );
                size_t o = 0;
                while( w.buf.size() - o >= 5 )
                {
                    u32 len;
                    memcpy( &len, w.buf.data() + o + 1, 4 );
                    if( w.buf.size() - o < 5 + (size_t)len )
                        break;
                    char t        = w.buf[o];
                    std::string s = w.buf.substr( o + 5, len );
                    o += 5 + len;
                    switch( t )
                    {
                        case 'A':
                        {
                            std::vector<u64> a( len / 8 );
                            memcpy( a.data(), s.data(), len );
                            todo.push_back( std::move( a ) );
                            break;
                        }
                        case 'V':
                            viol.push_back( s );
                            violMsg.insert( s.substr( 0, s.find( '\n' ) ) );
                            break;
                        case 'O':
                        {
                            std::istringstream is( s );
                            std::string g, o, x, w;
                            is.ignore( 2 );
                            std::getline( is, g, '\t' ), std::getline( is, o, '\t' ), std::getline( is, x, '\t' ),
                                std::getline( is, w );
                            auto & r = outcomes[{ g, o }];
                            r.expect = x;
                            r.total += Rat( w );
                            if( r.witness.empty() )
                                r.witness = s;
                            break;
                        }
                        case 'P':
                            samples.push_back( s );
                            nSampled++;
                            break;
                        case 'I':
                            incon.insert( s );
                            break;
                        case 'R':
                            reach.insert( s );
                            break;
                        case 'F':
                            fns.insert( s );
                            break;
                        case 'S':
                        {
                            std::istringstream is( s );
                            std::string how;
                            Stats x;
                            is >> how >> x.queries >> x.sat >> x.unsat >> x.unknown >> x.trivial >> x.asserts >> x.forks
                                >> x.solver >> x.steps;
                            ends[how]++;
                            w.ended = true;
                            T.queries += x.queries, T.sat += x.sat, T.unsat += x.unsat, T.unknown += x.unknown;
                            T.trivial += x.trivial, T.asserts += x.asserts, T.forks += x.forks, T.solver += x.solver;
                            T.steps += x.steps;
                            break;
                        }
                    }
                }
                w.buf.erase( 0, o );
            }
            if( !gone && now() - w.start > g_pathtime + 60 )
            {
                kill( w.pid, SIGKILL );
                incon.insert( "a path was killed after its time limit" );
            }
            i++;
            if( gone )
            {
                int stt;
                waitpid( w.pid, &stt, 0 );
                close( w.fd );
                if( !w.ended )
                    incon.insert( "a path ended without reporting, status " + std::to_string( stt ) );
                rmTree( w.dir );
                it = live.erase( it );
            }
            else
                ++it;
        }
        if( (long)violMsg.size() >= opt_maxviol || viol.size() > 40 )
            stop = true;
        if( now() - t0 > g_time )
        {
            incon.insert( "time limit of the exploration reached with " + std::to_string( todo.size() + live.size() ) + " paths left" );
            stop = true;
        }
        if( paths >= g_maxpaths && !todo.empty() )
        {
            incon.insert( "path limit reached" );
            stop = true;
        }
        if( getenv( "SX_PROGRESS" ) && now() - lastPrint > 2 )
        {
            lastPrint = now();
            fprintf( stderr, "[%.0fs] paths %ld todo %zu viol %zu incon %zu\n", now() - t0, paths, todo.size(), viol.size(), incon.size() );
        }
    }
    for( auto & w : live )
    {
        kill( w.pid, SIGKILL );
        waitpid( w.pid, nullptr, 0 );
    }
    rmTree( base );
    FILE * f = fopen( out.c_str(), "w" );
    fprintf(
        f,
        "{\"paths\":%ld,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"trivial\":%lu,\"asserts\":%lu,\"forks\":%lu,"
        "\"solver_s\":%.3f,\"steps\":%lu,\"wall_s\":%.3f,\n",
        paths, T.queries, T.sat, T.unsat, T.unknown, T.trivial, T.asserts, T.forks, T.solver, T.steps, now() - t0 );
    fprintf( f, "\"outcomes\":[" );
    for( auto it = outcomes.begin(); it != outcomes.end(); ++it )
        fprintf( f, "%s[%s,%s,%s,%s,%s]", it == outcomes.begin() ? "" : ",\n", jesc( it->first.first ).c_str(),
                 jesc( it->first.second ).c_str(), jesc( it->second.expect ).c_str(),
                 jesc( it->second.total.get_str() ).c_str(), jesc( it->second.witness ).c_str() );
    fprintf( f, "],\n" );
    auto list = [&]( const char * n, auto & c, const char * tail ) {
        fprintf( f, "\"%s\":[", n );
        bool first = true;
        for( auto & s : c )
            fprintf( f, "%s%s", first ? "" : ",\n", jesc( s ).c_str() ), first = false;
        fprintf( f, "]%s\n", tail );
    };
    list( "functions", fns, "," );
    list( "reach", reach, "," );
    list( "inconclusive", incon, "," );
    list( "violations", viol, "," );
    list( "samples", samples, "," );
    fprintf( f, "\"ends\":{" );
    bool first = true;
    for( auto & [k, v] : ends )
        fprintf( f, "%s\"%s\":%ld", first ? "" : ",", k.c_str(), v ), first = false;
    fprintf( f, "}}\n" );
    fclose( f );
    return 0;
}
