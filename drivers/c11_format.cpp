// formatted text is complete
#include "vp.h"
#include "flut/string_tools.hpp"
using namespace flut;
static string vf( const char* f, ... ) { va_list l; va_start( l, f ); string s = vstringf( f, l ); va_end( l ); return s; }
DRIVER( c11_args ) {
	int i = vp_int( "i", -120, 120 ); char c = vp_char_in( "c", "axz%" ); string s = vp_any_string_in( "s", 2, "pq%" );
	vp_assert( stringf( "%s", s.c_str() ) == s, "a string argument appears as it is" );
	vp_assert( stringf( "<%s|%c>", s.c_str(), c ) == "<" + s + "|" + string( 1, c ) + ">", "arguments appear in order between the literal text" );
	vp_assert( vf( "%s%s", s.c_str(), s.c_str() ) == s + s, "the list form formats the same" );
	vp_assert( stringf( "%d", i ) == std::to_string( i ), "numbers are printed completely" );
	vp_assert( stringf( "100%%" ) == "100%" && stringf( "" ).empty(), "literal text is printed as it is" );
}
static const int LEN[] = { 0, 1, 2, 15, 16, 126, 127, 128, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097 };
DRIVER( c11_long ) {
	int n = LEN[ vp_choice( "length", 0, 25 ) ]; string t( size_t( n ), 'y' );
	string s = stringf( "%s", t.c_str() );
	vp_assert( s.size() == t.size(), "formatted text is never cut off" ); vp_assert( s == t, "long formatted text is complete" );
	string u = stringf( "%s!", t.c_str() ); vp_assert( u.size() == t.size() + 1 && u.back() == '!', "text after a long argument is not lost" );
	vp_assert( vf( "%s", t.c_str() ) == t, "the list form is complete as well" );
}
DRIVER( c11_padded ) { vp_assert( stringf( "%5d", 42 ) == "   42" && stringf( "%-4s|", "ab" ) == "ab  |" && stringf( "%03d", 7 ) == "007" && stringf( "%.2f", 1.5 ) == "1.50", "width and precision are honoured" ); }
#include "flut/system/log.hpp"
DRIVER( c11_setfixed ) {
	int d = vp_choice( "decimals", 0, 4 ); static const double v[] = { 0.5, -2.25, 100, 0.0625, 1e5 }; static const char* e[][ 5 ] = { { "0", "0.5", "0.50", "0.500", "0.5000" }, { "-2", "-2.2", "-2.25", "-2.250", "-2.2500" }, { "100", "100.0", "100.00", "100.000", "100.0000" }, { "0", "0.1", "0.06", "0.062", "0.0625" }, { "100000", "100000.0", "100000.00", "100000.000", "100000.0000" } };
	int i = vp_choice( "value", 0, 4 ); std::ostringstream o; o << flut::setfixed( d ) << v[ i ]; vp_assert( o.str() == e[ i ][ d ], "a fixed number of decimals is written" );
}
// ---- larger sizes
DRIVER( c11_size ) {
	int n = vp_size_to( "length", 140, 70000 ); string t = vp_long_text( "c", n, n - 1, "a%\n" );
	vp_assert( stringf( "%s", t.c_str() ) == t && vf( "%s", t.c_str() ) == t, "formatted text of any length is complete" ); vp_assert( stringf( "%d%s%c", 7, t.c_str(), 'z' ) == "7" + t + "z", "text around a long argument is complete" );
	vp_assert( stringf( "%*d", n, 5 ) == string( size_t( n - 1 ), ' ' ) + "5", "wide fields are complete" ); string f = t; f[ f.size() - 1 ] = 'k'; vp_assert( stringf( f.c_str() ) == f, "long literal text is complete" );
}
// a zero character is a character
DRIVER( c11_zero ) { char c = vp_char( "c" ); string want = "a" + string( 1, c ) + "b"; vp_assert( stringf( "a%cb", c ) == want && vf( "a%cb", c ) == want, "any character appears as it is, a zero as well" ); vp_assert( stringf( "%c", c ) == string( 1, c ), "a text of any one character is that character" ); }
