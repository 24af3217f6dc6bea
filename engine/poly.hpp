// Multivariate (Laurent) polynomials over atoms with rational coefficients:
// the canonical form in which the engine keeps every symbolic real value.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <map>
#include <string>
#include <utility>
#include <vector>

using Rat = mpq_class;
struct Mono
{
    std::vector<std::pair<int, int>> f; // (atom, power != 0), sorted by atom
    bool operator<( const Mono & o ) const
    {
        return f < o.f;
    }
    bool operator==( const Mono & o ) const
    {
        return f == o.f;
    }
};
inline Mono mulMono( const Mono & a, const Mono & b )
{
    Mono r;
    size_t i = 0, j = 0;
    while( i < a.f.size() || j < b.f.size() )
    {
        if( j == b.f.size() || ( i < a.f.size() && a.f[i].first < b.f[j].first ) )
            r.f.push_back( a.f[i++] );
        else if( i == a.f.size() || b.f[j].first < a.f[i].first )
            r.f.push_back( b.f[j++] );
        else
        {
            int p = a.f[i].second + b.f[j].second;
            if( p )
                r.f.push_back( { a.f[i].first, p } );
            i++, j++;
        }
    }
    return r;
}
struct Poly
{
    std::vector<std::pair<Mono, Rat>> t; // sorted, coefficients != 0
    void * z = nullptr;                  // cached z3 term
    bool isConst() const
    {
        return t.empty() || ( t.size() == 1 && t[0].first.f.empty() );
    }
    Rat constVal() const
    {
        return t.empty() ? Rat( 0 ) : t[0].second;
    }
    bool sameAs( const Poly & o ) const
    {
        return t == o.t;
    }
    std::string key() const
    {
        std::string s;
        for( auto & [m, c] : t )
        {
            s += c.get_str();
            for( auto & [a, p] : m.f )
                s += "*" + std::to_string( a ) + "^" + std::to_string( p );
            s += "+";
        }
        return s;
    }
};
inline void polyAdd( Poly & r, const Poly & a, const Poly & b, const Rat & kb )
{
    size_t i = 0, j = 0;
    r.t.clear();
    while( i < a.t.size() || j < b.t.size() )
    {
        if( j == b.t.size() || ( i < a.t.size() && a.t[i].first < b.t[j].first ) )
            r.t.push_back( a.t[i++] );
        else if( i == a.t.size() || b.t[j].first < a.t[i].first )
        {
            r.t.push_back( { b.t[j].first, b.t[j].second * kb } );
            j++;
        }
        else
        {
            Rat c = a.t[i].second + b.t[j].second * kb;
            if( c != 0 )
                r.t.push_back( { a.t[i].first, c } );
            i++, j++;
        }
    }
}
inline void polyMul( Poly & r, const Poly & a, const Poly & b )
{
    r.t.clear();
    if( a.t.size() == 1 || b.t.size() == 1 )
    {
        const Poly & s = a.t.size() == 1 ? a : b;
        const Poly & o = a.t.size() == 1 ? b : a;
        for( auto & [m, c] : o.t )
            r.t.push_back( { mulMono( m, s.t[0].first ), c * s.t[0].second } );
        std::sort( r.t.begin(), r.t.end(), []( auto & x, auto & y ) { return x.first < y.first; } );
        return;
    }
    std::map<Mono, Rat> acc;
    for( auto & [m, c] : a.t )
        for( auto & [n, d] : b.t )
            acc[mulMono( m, n )] += c * d;
    for( auto & [m, c] : acc )
        if( c != 0 )
            r.t.push_back( { m, c } );
}
