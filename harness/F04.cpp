// F04: splitting comma separated lists.
//@ bound: quick: every string of up to 6 arbitrary bytes; thorough: up to 9 bytes
//@ run quick: 6
//@ run thorough: 9
//@ reach: one several empties
#include "common.hpp"
#include "util/misc.hpp"

extern "C" void sx_main()
{
    size_t len = sx_choice( "length", sx_param( 0 ) + 1 );
    std::string s;
    std::vector<std::string> want( 1 );
    for( size_t i = 0; i < len; i++ )
    {
        char c = (char)sx_byte( "byte" );
        s.push_back( c );
        if( c == ',' )
            want.emplace_back();
        else
            want.back().push_back( c );
    }
    size_t n = 0;
    std::string copy = s;
    auto cb  = [&]( int idx, auto & f )
    {
        sx_assert( idx == (int)n, "fields are numbered from zero" );
        sx_assert( n < want.size(), "no invented field" );
        sx_assert( f.size() == want[n].size(), "length of a field" );
        for( size_t k = 0; k < f.size(); k++ )
            sx_assert( f[k] == want[n][k], "text of a field" );
        n++;
    };
    Seldon::parse_comma_separated_list( s, cb );
    sx_assert( n == want.size(), "every field is reported" );
    for( size_t k = 0; k < len; k++ )
        sx_assert( s[k] == copy[k], "the input is not changed" );
    sx_reach( want.size() == 1 ? "one" : "several" );
    if( want.size() == len + 1 && len > 1 )
        sx_reach( "empties" );
}
