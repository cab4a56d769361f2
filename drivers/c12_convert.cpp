// text conversion: to_str is exact, from_str is its inverse, malformed text is refused
#include "vp.h"
#include "flut/string_tools.hpp"
#include <limits>
using namespace flut;
static string dec( long long v ) { if ( v == 0 ) return "0"; bool n = v < 0; unsigned long long u = n ? 0ull - (unsigned long long)v : (unsigned long long)v; string s; while ( u ) { s.insert( s.begin(), char( '0' + u % 10 ) ); u /= 10; } return n ? "-" + s : s; }
static string udec( unsigned long long u ) { if ( u == 0 ) return "0"; string s; while ( u ) { s.insert( s.begin(), char( '0' + u % 10 ) ); u /= 10; } return s; }
template< typename T > static void trip( T v, const string& text ) { vp_assert( to_str( v ) == text, "a number is written in full" ); vp_assert( from_str< T >( text ) == v, "reading back a written number gives the number" ); }
DRIVER( c12_small ) { int v = vp_choice( "v", -12, 12 ); trip< int >( v, dec( v ) ); trip< long >( v, dec( v ) ); trip< long long >( v, dec( v ) ); trip< short >( short( v ), dec( v ) ); }
DRIVER( c12_unsigned ) { unsigned v = unsigned( vp_choice( "v", 0, 12 ) ); trip< unsigned >( v, udec( v ) ); trip< unsigned long >( v, udec( v ) ); trip< unsigned long long >( v, udec( v ) ); trip< unsigned short >( (unsigned short)v, udec( v ) ); }
DRIVER( c12_limits ) {
	switch ( vp_choice( "type", 0, 7 ) ) {
	case 0: trip< int >( std::numeric_limits< int >::max(), "2147483647" ); trip< int >( std::numeric_limits< int >::min(), "-2147483648" ); break;
	case 1: trip< long >( std::numeric_limits< long >::max(), "9223372036854775807" ); trip< long >( std::numeric_limits< long >::min(), "-9223372036854775808" ); break;
	case 2: trip< long long >( std::numeric_limits< long long >::max(), "9223372036854775807" ); trip< long long >( std::numeric_limits< long long >::min(), "-9223372036854775808" ); break;
	case 3: trip< unsigned >( 4294967295u, "4294967295" ); trip< unsigned >( 2147483648u, "2147483648" ); break;
	case 4: trip< unsigned long >( ~0ul, "18446744073709551615" ); trip< unsigned long >( 9223372036854775808ul, "9223372036854775808" ); break;
	case 5: trip< unsigned long long >( ~0ull, "18446744073709551615" ); break;
	case 6: trip< long >( 4294967296l, "4294967296" ); trip< long >( -4294967297l, "-4294967297" ); trip< long long >( 4294967296ll, "4294967296" ); break;
	case 7: trip< short >( 32767, "32767" ); trip< unsigned short >( 65535, "65535" ); break;
	}
}
enum color { red, green = 5, blue = -3 };
enum class mode : int { off = 0, on = 7 };
DRIVER( c12_enum ) {
	color c = vp_choice( "color", 0, 2 ) == 0 ? red : vp_choice( "second", 0, 1 ) ? green : blue; trip< color >( c, dec( int( c ) ) );
	trip< mode >( mode::on, "7" ); trip< mode >( mode::off, "0" );
}
DRIVER( c12_text ) {
	string s = vp_any_string( "text", VP_N( 3, 4 ) );
	vp_assert( to_str( s ) == s && from_str< string >( s ) == s, "text is converted to itself, blanks included" );
	bool z = false; for ( char c : s ) z = z || c == 0;
	if ( !z ) { const char* p = s.c_str(); vp_assert( to_str( p ) == s, "a literal is converted to its text" ); }
	char c = vp_char( "c" ); vp_assert( to_str( c ) == string( 1, c ), "a character is written as itself" );
}
DRIVER( c12_bool ) { vp_assert( to_str( true ) == "1" && to_str( false ) == "0" && from_str< bool >( "1" ) && !from_str< bool >( "0" ), "truth values are written and read as 1 and 0" ); }
DRIVER( c12_real ) {
	switch ( vp_choice( "case", 0, 5 ) ) {
	case 0: vp_assert( from_str< double >( "0.5" ) == 0.5 && from_str< float >( "-2.25" ) == -2.25f, "fractions are read exactly" ); break;
	case 1: vp_assert( from_str< double >( "1e3" ) == 1000 && from_str< double >( "-1.5E2" ) == -150, "exponents are read" ); break;
	case 2: vp_assert( to_str( 0.5 ) == "0.500000" && to_str( -2.25 ) == "-2.250000" && to_str( 1e6 ) == "1000000.000000", "numbers are written with six decimals" ); break;
	case 3: vp_assert( to_str( 0.5f ) == "0.500000" && to_str( 3.0f ) == "3.000000", "single precision numbers are written with six decimals" ); break;
	case 4: { int v = vp_choice( "v", -9, 9 ); vp_assert( from_str< double >( to_str( v * 0.25 ) ) == v * 0.25 && from_str< float >( to_str( v * 0.5f ) ) == v * 0.5f, "numbers with up to six decimals survive writing and reading" ); break; }
	case 5: vp_assert( from_str< double >( " 12 " ) == 12 && from_str< double >( "3" ) == 3, "surrounding blanks and integers are accepted" ); break;
	}
}
// text that does not start with a number is refused by the conversions that report errors
DRIVER( c12_refuse ) {
	string s = vp_any_string_in( "text", VP_N( 3, 4 ), "1-. ay" );
	size_t p = 0; while ( p < s.size() && s[ p ] == ' ' ) ++p; if ( p < s.size() && s[ p ] == '-' ) ++p;
	bool integer = p < s.size() && s[ p ] == '1';
	bool real = integer || ( p + 1 < s.size() && s[ p ] == '.' && s[ p + 1 ] == '1' );
	vp_assert( vp_throws( [&] { from_str< long >( s ); } ) == !integer && vp_throws( [&] { from_str< long long >( s ); } ) == !integer, "text without an integer is refused" );
	vp_assert( vp_throws( [&] { from_str< double >( s ); } ) == !real && vp_throws( [&] { from_str< float >( s ); } ) == !real, "text without a number is refused" );
	vp_assert( vp_throws( [&] { from_str< int >( s ); } ) == !integer && vp_throws( [&] { from_str< short >( s ); } ) == !integer && vp_throws( [&] { from_str< mode >( s ); } ) == !integer, "text without an integer is refused for every type" );
	vp_assert( string_is< int >( s ) == integer && string_is< short >( s ) == integer && string_is< mode >( s ) == integer, "the test for an integer agrees with the conversion for every type" );
	vp_assert( string_is< double >( s ) == real && string_is< float >( s ) == real && string_is< long >( s ) == integer && string_is< long long >( s ) == integer, "the test for a number agrees with the conversion" );
}
DRIVER( c12_range ) {
	vp_assert( vp_throws( [] { from_str< int >( "2147483648" ); } ) && vp_throws( [] { from_str< short >( "-32769" ); } ) && vp_throws( [] { from_str< bool >( "2" ); } ) && vp_throws( [] { from_str< unsigned >( "4294967296" ); } ) && !string_is< int >( "2147483648" ), "also for the smaller types" );
	vp_assert( vp_throws( [] { from_str< bool >( "" ); } ) && vp_throws( [] { from_str< unsigned >( "x" ); } ) && vp_throws( [] { from_str< char >( "" ); } ) && vp_throws( [] { from_str< int >( "" ); } ), "nothing is no value" );
	vp_assert( vp_throws( [] { from_str< long >( "9223372036854775808" ); } ) && vp_throws( [] { from_str< long long >( "-9223372036854775809" ); } ) && vp_throws( [] { from_str< unsigned long >( "18446744073709551616" ); } ), "numbers outside the range of the type are refused" );
}
// ---- larger sizes
DRIVER( c12_size ) { int n = vp_size_to( "size", 1100, 70000 ); string s = vp_long_text( "c", n, n / 2, "a \n\"" ); vp_assert( to_str( s ) == s && from_str< string >( s ) == s && to_str( s.c_str() ) == s, "text of any length is converted to itself" ); string z = string( size_t( n ), ' ' ) + "12"; vp_assert( from_str< int >( z ) == 12 && from_str< double >( z ) == 12 && from_str< long >( string( size_t( n ), '0' ) + "7" ) == 7, "blanks and zeros in front change nothing" ); }
