// reading files back as lines and columns
#pragma once
#include "common.hpp"
#include <fstream>
#include <sstream>
namespace hx
{
inline std::string slurp( const std::string & f )
{
    std::ifstream in( f, std::ios::binary );
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
inline std::vector<std::string> split( const std::string & s, char c )
{
    std::vector<std::string> r( 1 );
    for( char x : s )
        if( x == c )
            r.emplace_back();
        else
            r.back().push_back( x );
    return r;
}
inline std::string trim( const std::string & s )
{
    size_t a = 0, b = s.size();
    while( a < b && s[a] == ' ' )
        a++;
    while( b > a && s[b - 1] == ' ' )
        b--;
    return s.substr( a, b - a );
}
// the lines of a text, without the empty one after a final newline
inline std::vector<std::string> lines( const std::string & s )
{
    auto r = split( s, '\n' );
    if( r.back().empty() )
        r.pop_back();
    return r;
}
// columns without surrounding spaces; a trailing empty column does not count
inline std::vector<std::string> columns( const std::string & s )
{
    auto r = split( s, ',' );
    for( auto & x : r )
        x = trim( x );
    return r;
}
inline void spit( const std::string & f, const std::string & s )
{
    std::ofstream o( f, std::ios::binary );
    o << s;
}
} // namespace hx
