// quoting is lossless
#include "vp.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
DRIVER( c07_roundtrip ) {
	string s = vp_any_string( "text", VP_N( 4, 5 ) );
	vp_assert( try_unquoted( flut::quoted( s ) ) == s, "unquoting a quoted text gives the text back" );
	if ( needs_quotes( s ) ) vp_assert( try_unquoted( try_quoted( s ) ) == s, "a text that needs quotes survives quoting and unquoting" );
	else vp_assert( try_quoted( s ) == s, "a text that needs no quotes is left as it is" );
}
DRIVER( c07_shape ) {
	string s = vp_any_string( "text", VP_N( 3, 4 ) ); string q = flut::quoted( s );
	vp_assert( q.size() >= 2 && q.front() == '"' && q.back() == '"', "a quoted text starts and ends with a quote" );
	for ( size_t i = 1; i + 1 < q.size(); ++i ) {
		vp_assert( (unsigned char)q[ i ] >= 32, "a quoted text has no control characters" );
		if ( q[ i ] == '\\' ) ++i; else vp_assert( q[ i ] != '"', "quotes inside a quoted text are escaped" );
	}
}
DRIVER( c07_stream ) {
	string s = vp_any_string( "text", VP_N( 3, 4 ) ); string q = flut::quoted( s ) + "=z";
	char_stream str( q.c_str() );
	vp_assert( str.get_token( "=" ) == s, "the reader gets the text back from its quoted form" );
	vp_assert( str.get_token( "=" ) == "=" && str.get_token( "=" ) == "z", "what follows the quoted text is intact" );
}
// a text that claims to need no quotes is read back as one token
DRIVER( c07_bare ) {
	string s = vp_string( "text", vp_choice( "length", 1, VP_N( 3, 4 ) ) );
	vp_assume( !needs_quotes( s ) );
	string t = s + " = " + s + "}";
	char_stream str( t.c_str() );
	vp_assert( str.get_token( "={}" ) == s, "a bare text is one token" );
	vp_assert( str.get_token( "={}" ) == "=", "the operator follows" );
	vp_assert( str.get_token( "={}" ) == s && str.get_token( "={}" ) == "}", "a bare text before a bracket is one token" );
}
DRIVER( c07_char ) {
	char c = vp_char( "c" ); string e = encode_char( c ); int len = 0;
	vp_assert( !e.empty() && decode_char( e.c_str(), e.size(), &len ) == c && size_t( len ) == e.size(), "decoding an encoded character gives it back and consumes exactly the encoding" );
	string f = e + vp_char( "next" );
	vp_assert( decode_char( f.c_str(), f.size(), &len ) == c && size_t( len ) == e.size(), "decoding does not depend on what follows" );
}
// any text, quoted or not: no read outside, result never longer
DRIVER( c07_any ) {
	string s = vp_any_string( "text", VP_N( 4, 5 ) ); string u = try_unquoted( s );
	vp_assert( u.size() <= s.size(), "unquoting never makes a text longer" );
	if ( s.size() < 2 || s.front() != '"' || s.back() != '"' ) vp_assert( u == s, "a text without quotes is left as it is" );
}
// a buffer that ends before the text does: what follows is not part of it
DRIVER( c07_decode_part ) {
	string s = vp_string_in( "text", 5, "\\017n\"x" ); size_t n = size_t( vp_choice( "size", 1, 4 ) ); int len = 0, whole = 0; string part = s.substr( 0, n ); char c = decode_char( s.c_str(), n, &len ), d = decode_char( part.c_str(), n, &whole );
	vp_assert( len >= 1 && size_t( len ) <= n, "decoding consumes nothing after the end of its buffer" ); vp_assert( c == d && len == whole, "and does not depend on it" );
}
DRIVER( c07_octal ) { int d = vp_choice( "digits", 1, 3 ), v = vp_choice( "code", 0, 31 ); string s = "\\"; if ( d == 1 ) vp_assume( v < 8 ); if ( d == 3 ) s += '0'; if ( d > 1 ) s += char( '0' + v / 8 ); s += char( '0' + v % 8 ); int len = 0; char f = "x9\"\\"[ vp_choice( "next", 0, 3 ) ]; size_t n = s.size(); s += f; s += '1'; vp_assert( decode_char( s.c_str(), s.size(), &len ) == char( v ) && size_t( len ) == n, "an escape is one to three octal digits" ); }
DRIVER( c07_decode_any ) {
	string s = vp_string( "text", vp_choice( "length", 1, 4 ) ); int len = 0;
	char c = decode_char( s.c_str(), s.size(), &len ); (void)c;
	vp_assert( len >= 1 && size_t( len ) <= s.size(), "decoding consumes at least one and at most all characters" );
	if ( s[ 0 ] != '\\' ) vp_assert( len == 1 && c == s[ 0 ], "an ordinary character stands for itself" );
}
// ---- larger sizes
DRIVER( c07_size ) {
	int n = vp_size_to( "size", 300, 1100 ); int k = vp_choice( "position", 0, 2 ); string s = vp_long_text( "c", n, k == 0 ? 0 : k == 1 ? n / 2 : n - 1, "a\"\\\n\r\t =#" ); vp_assert( try_unquoted( flut::quoted( s ) ) == s, "unquoting a long quoted text gives the text back" );
	vp_assert( try_unquoted( try_quoted( s ) ) == s || !needs_quotes( s ), "a long text that needs quotes survives" ); string q = flut::quoted( s ) + "=z"; char_stream str( q.c_str() ); vp_assert( str.get_token( "=" ) == s && str.get_token( "=" ) == "=" && str.get_token( "=" ) == "z", "the reader gets a long text back" );
	string e; for ( int i = 0; i < n; ++i ) e += i % 2 ? '"' : '\\'; vp_assert( try_unquoted( flut::quoted( e ) ) == e, "any number of escapes is undone" );
}
