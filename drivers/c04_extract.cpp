// typed extraction: value, position and flags
#include "vp.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
static bool blank( char c ) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f' || c == '\v'; }
static bool digit( char c ) { return c >= '0' && c <= '9'; }
// reference: signed decimal number at position p; returns false when there is none
static bool ref_number( const string& s, size_t& p, long& v ) {
	size_t q = p; while ( q < s.size() && blank( s[ q ] ) ) ++q;
	bool neg = false; if ( q < s.size() && ( s[ q ] == '-' || s[ q ] == '+' ) ) neg = s[ q++ ] == '-';
	if ( q >= s.size() || !digit( s[ q ] ) ) return false;
	v = 0; while ( q < s.size() && digit( s[ q ] ) ) v = v * 10 + ( s[ q++ ] - '0' );
	if ( neg ) v = -v;
	p = q; return true;
}
static void skip( const string& s, size_t& p ) { while ( p < s.size() && blank( s[ p ] ) ) ++p; }
template< typename T > static void numbers( const string& s, int count ) {
	char_stream str( s.c_str() );
	size_t p = 0; skip( s, p ); bool fail = false;
	for ( int i = 0; i < count; ++i ) {
		vp_assert( str.eof() == ( p == s.size() ), "end of input is flagged exactly when everything has been consumed" );
		vp_assert( str.fail() == fail, "a failed extraction is flagged, and stays flagged" );
		vp_assert( str.good() == ( !fail && p < s.size() ), "good means not failed and not at the end" );
		if ( str.fail() || str.eof() ) break;
		T v = T( 77 ); str >> v; long r = 0;
		if ( ref_number( s, p, r ) ) { vp_assert( v == T( r ), "the extracted number is the one in the text" ); skip( s, p ); }
		else fail = true;
	}
	vp_reach( "numbers" );
}
DRIVER( c04_int ) { numbers< int >( vp_any_string_in( "text", VP_N( 4, 5 ), "019-+ x\n" ), 3 ); }
DRIVER( c04_long ) { numbers< long >( vp_any_string_in( "text", VP_N( 3, 5 ), "07-+ y\t" ), 3 ); }
DRIVER( c04_longlong ) { numbers< long long >( vp_any_string_in( "text", VP_N( 3, 4 ), "28- ," ), 2 ); }
DRIVER( c04_unsigned ) { numbers< unsigned int >( vp_any_string_in( "text", VP_N( 3, 4 ), "28 ,+" ), 2 ); }
DRIVER( c04_ulong ) { numbers< unsigned long >( vp_any_string_in( "text", VP_N( 3, 4 ), "28 ,+" ), 2 ); }
DRIVER( c04_ulonglong ) { numbers< unsigned long long >( vp_any_string_in( "text", VP_N( 3, 4 ), "28 ,+" ), 2 ); }
DRIVER( c04_short ) { numbers< short >( vp_any_string_in( "text", VP_N( 3, 4 ), "28- ," ), 2 ); }
DRIVER( c04_ushort ) { numbers< unsigned short >( vp_any_string_in( "text", VP_N( 3, 4 ), "28 ," ), 2 ); }
DRIVER( c04_double ) { numbers< double >( vp_any_string_in( "text", VP_N( 3, 4 ), "05- y" ), 3 ); }
DRIVER( c04_float ) { numbers< float >( vp_any_string_in( "text", VP_N( 3, 4 ), "05- y" ), 3 ); }
// a number with a fraction
DRIVER( c04_fraction ) {
	int k = vp_choice( "case", 0, 2 );
	if ( k == 0 ) { char_stream s( "0.5 2.25" ); double a = 0, b = 0; s >> a >> b; vp_assert( a == 0.5 && b == 2.25 && s.eof() && !s.fail(), "fractions are read completely" ); }
	if ( k == 1 ) { char_stream s( "-1.5e2x" ); double a = 0; s >> a; vp_assert( a == -150 && s.good() && s.peekc() == 'x', "exponents are read completely" ); }
	if ( k == 2 ) { char_stream s( "12345678901234" ); long long a = 0; s >> a; vp_assert( a == 12345678901234ll, "wide numbers keep all digits" ); char_stream t( "4294967295" ); unsigned int u = 0; t >> u; vp_assert( u == 4294967295u, "unsigned numbers use their full range" ); char_stream w( "-2147483648" ); int v = 0; w >> v; vp_assert( v == -2147483647 - 1, "signed numbers use their full range" ); }
}
template< typename T > static void limit( const char* t, T e ) { char_stream s( t ); T v = 0; s >> v; vp_assert( v == e && s.eof() && !s.fail(), "numbers use the full range of their type" ); }
DRIVER( c04_limits ) {
	switch ( vp_choice( "type", 0, 7 ) ) {
	case 0: limit< short >( "-32768", -32768 ); limit< short >( "32767", 32767 ); break;
	case 1: limit< unsigned short >( "65535", 65535 ); break;
	case 2: limit< int >( "-2147483648", -2147483647 - 1 ); limit< int >( "2147483647", 2147483647 ); break;
	case 3: limit< unsigned int >( "4294967295", 4294967295u ); limit< unsigned int >( "2147483648", 2147483648u ); break;
	case 4: limit< long >( "-9223372036854775808", -9223372036854775807l - 1 ); limit< long >( "9223372036854775807", 9223372036854775807l ); break;
	case 5: limit< long long >( "-9223372036854775808", -9223372036854775807ll - 1 ); limit< long long >( "9223372036854775807", 9223372036854775807ll ); break;
	case 6: limit< unsigned long >( "18446744073709551615", 18446744073709551615ul ); limit< unsigned long >( "9223372036854775808", 9223372036854775808ul ); break;
	case 7: limit< unsigned long long >( "18446744073709551615", 18446744073709551615ull ); limit< unsigned long long >( "9223372036854775808", 9223372036854775808ull ); break;
	}
}
// words
DRIVER( c04_words ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "a\xe9\x01,\t \n" );
	char_stream str( s.c_str() ); size_t p = 0; skip( s, p );
	for ( int i = 0; i < 4; ++i ) {
		vp_assert( str.eof() == ( p == s.size() ) && !str.fail(), "end of input is flagged exactly when all words are consumed" );
		if ( p == s.size() ) break;
		string w, r; while ( p < s.size() && !blank( s[ p ] ) ) r += s[ p++ ];
		skip( s, p );
		str >> w; vp_assert( w == r, "a word is the longest run of non-blank characters" );
	}
}
// lines
DRIVER( c04_lines ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "a b\n\r" );
	char_stream str( s.c_str(), "\r\n" ); size_t p = 0; while ( p < s.size() && ( s[ p ] == '\n' || s[ p ] == '\r' ) ) ++p;
	for ( int i = 0; i < 4; ++i ) {
		vp_assert( str.eof() == ( p == s.size() ), "end of input is flagged exactly when all lines are consumed" );
		if ( p == s.size() ) break;
		string r; while ( p < s.size() && s[ p ] != '\n' && s[ p ] != '\r' ) r += s[ p++ ];
		while ( p < s.size() && ( s[ p ] == '\n' || s[ p ] == '\r' ) ) ++p;
		vp_assert( str.get_line() == r, "a line is everything up to the next line end" );
	}
}
// single characters
DRIVER( c04_chars ) {
	string s = vp_any_string_in( "text", VP_N( 4, 5 ), "abc" );
	char_stream str( s.c_str() );
	for ( size_t i = 0; i < s.size(); ++i ) {
		vp_assert( str.good(), "good while there are characters left" );
		vp_assert( str.peekc() == s[ i ], "peeking shows the next character and consumes nothing" );
		vp_assert( str.getc() == s[ i ], "characters come one by one, in order" );
	}
	vp_assert( str.eof() && !str.good(), "after the last character the end is flagged" );
	str.getc(); str.getc();
	vp_assert( str.eof() && str.peekc() == 0, "reading at the end stays at the end" );
}
// custom delimiters
DRIVER( c04_delimiters ) {
	string s = vp_any_string_in( "text", VP_N( 4, 5 ), "1,;" );
	char_stream str( s.c_str(), ",;" ); size_t p = 0; while ( p < s.size() && s[ p ] != '1' ) ++p;
	for ( int i = 0; i < 3; ++i ) {
		vp_assert( str.eof() == ( p == s.size() ), "custom delimiters are skipped before the end test" );
		if ( p == s.size() ) break;
		long r = 0; while ( p < s.size() && s[ p ] == '1' ) { r = r * 10 + 1; ++p; }
		while ( p < s.size() && s[ p ] != '1' ) ++p;
		int v = 0; str >> v; vp_assert( v == r, "numbers between custom delimiters are read in order" );
	}
}
// scan_str counts the values it could read; str_to_vec returns them
DRIVER( c04_scan ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "07- x" );
	size_t p = 0; skip( s, p ); long r[ 3 ]; int n = 0;
	while ( n < 3 ) { size_t q = p; if ( !ref_number( s, q, r[ n ] ) ) break; ++n; p = q; skip( s, p ); }
	int a = -5, b = -5, c = -5;
	int k = scan_str( s, a, b, c );
	vp_assert( k == n, "scan_str returns the number of values read" );
	if ( n > 0 ) vp_assert( a == r[ 0 ], "first value" );
	if ( n > 1 ) vp_assert( b == r[ 1 ], "second value" );
	if ( n > 2 ) vp_assert( c == r[ 2 ], "third value" );
	size_t m = size_t( vp_choice( "max values", 0, 3 ) );
	auto v = str_to_vec< int >( s, m );
	vp_assert( v.size() == std::min( size_t( n ), m ), "str_to_vec stops at the first text that is no number, and at the limit" );
	for ( size_t i = 0; i < v.size() && i < 3; ++i ) vp_assert( v[ i ] == r[ i ], "str_to_vec keeps the values in order" );
}
DRIVER( c04_vec_all ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "12 ;" );
	vector< int > ref; size_t p = 0;
	while ( true ) { while ( p < s.size() && ( s[ p ] == ' ' || s[ p ] == ';' ) ) ++p; if ( p == s.size() ) break; int v = 0; while ( p < s.size() && digit( s[ p ] ) ) v = v * 10 + ( s[ p++ ] - '0' ); ref.push_back( v ); }
	vp_assert( str_to_vec< int >( s, no_index, " ;" ) == ref, "all values are converted when there is no limit" );
}
// ---- larger sizes
// many values, long words and lines
DRIVER( c04_size ) {
	int n = vp_size_to( "size", 300, 2100 ); string t; for ( int i = 0; i < n; ++i ) { t += char( '0' + i % 10 ); t += i % 3 ? " " : "\t"; } char_stream s( t.c_str() ); int k = 0; bool ok = true; while ( s.good() && k <= n ) { int v = -1; s >> v; ok = ok && v == k % 10; ++k; } vp_assert( ok && k == n && s.eof() && !s.fail(), "every value of a long text is read" );
	vp_assert( str_to_vec< int >( t, size_t( n ) ).size() == size_t( n ) && str_to_vec< int >( t, size_t( n ) )[ size_t( n - 1 ) ] == ( n - 1 ) % 10, "all values are returned" );
	string w = vp_long_text( "c", n, n - 1, "ab=%" ), l = w + " " + w; string u = w + " " + l + "\n" + w; char_stream q( u.c_str() ); string a; q >> a; vp_assert( a == w, "a long word is read completely" ); vp_assert( q.get_line() == l, "a long line is read completely" ); string b; q >> b; vp_assert( b == w && q.eof(), "what follows a long line is read" );
	string z = string( size_t( n ), ' ' ) + "5" + string( size_t( n ), ' ' ) + "x"; char_stream y( z.c_str() ); int v = 0; y >> v; vp_assert( v == 5 && y.good() && y.getc() == 'x', "any number of delimiters is skipped" );
	string o = string( size_t( n ), '0' ) + "12 "; char_stream x( o.c_str() ); long r = 0; x >> r; vp_assert( r == 12 && !x.fail(), "leading zeros change nothing" );
}
