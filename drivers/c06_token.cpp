// tokens: operators are separate, quoted parts are decoded, delimiters separate
#include "vp.h"
#include "flut/char_stream.hpp"
using namespace flut;
static bool blank( char c ) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f' || c == '\v'; }
// reference tokenizer; false when the text has an escape it does not define
static bool ref_tokens( const string& s, const char* ops, const char* quotes, vector< string >& out ) {
	size_t p = 0;
	while ( true ) {
		while ( p < s.size() && blank( s[ p ] ) ) ++p;
		if ( p >= s.size() ) return true;
		if ( vp_in( ops, s[ p ] ) ) { out.push_back( string( 1, s[ p++ ] ) ); continue; }
		string t;
		while ( p < s.size() && !blank( s[ p ] ) && !vp_in( ops, s[ p ] ) ) {
			if ( vp_in( quotes, s[ p ] ) ) {
				char q = s[ p++ ];
				while ( p < s.size() && s[ p ] != q ) {
					if ( s[ p ] == '\\' ) {
						if ( p + 1 >= s.size() ) return false;
						char c = s[ p + 1 ];
						if ( c == '\\' || c == '"' ) t += c; else if ( c == 'n' ) t += '\n'; else if ( c == 'r' ) t += '\r'; else if ( c == 't' ) t += '\t'; else return false;
						p += 2;
					}
					else t += s[ p++ ];
				}
				if ( p < s.size() ) ++p;
			}
			else t += s[ p++ ];
		}
		out.push_back( t );
	}
}
static void tokens( const string& s, const char* ops, const char* quotes ) {
	vector< string > ref; if ( !ref_tokens( s, ops, quotes, ref ) ) return;
	char_stream str( s.c_str() ); 
	for ( size_t i = 0; i < ref.size(); ++i ) {
		vp_assert( str.good(), "the stream is good as long as there are tokens left" );
		vp_assert( str.get_token( ops, quotes ) == ref[ i ], "the token is the next one of the text" );
	}
	vp_assert( str.eof() && !str.fail(), "after the last token the end is flagged" );
}
DRIVER( c06_plain ) { tokens( vp_any_string_in( "text", VP_N( 5, 6 ), "ab \n\t" ), "", "\"" ); }
DRIVER( c06_operators ) { tokens( vp_any_string_in( "text", VP_N( 5, 6 ), "a={} " ), "={}", "\"" ); }
DRIVER( c06_quotes ) { tokens( vp_any_string_in( "text", VP_N( 5, 6 ), "a= \"" ), "=", "\"" ); }
DRIVER( c06_escapes ) { tokens( vp_any_string_in( "text", VP_N( 5, 6 ), "n \"\\" ), "", "\"" ); }
DRIVER( c06_two_quotes ) { tokens( vp_any_string_in( "text", VP_N( 5, 6 ), "a\"' " ), "=", "\"'" ); }
DRIVER( c06_any ) { tokens( vp_any_string_in( "text", VP_N( 4, 5 ), "ar=} \n\"\\'%;" ), "={}", "\"" ); }
// every byte: characters without a special meaning end up in the token as they are
DRIVER( c06_bytes ) {
	string s = "x" + vp_string( "text", 2 ) + "y";
	for ( char c : s ) vp_assume( c != 0 && c != '\\' );
	tokens( s, "={}", "\"" );
}
// ---- larger sizes
DRIVER( c06_size ) {
	int n = vp_size_to( "size", 300, 1100 ); string w = vp_long_text( "c", n, n - 1, "a= \"" ); string q = "\""; for ( int i = 0; i < n; ++i ) q += i % 7 == 6 ? " =" : i % 11 == 10 ? "\\n" : "b"; q += "\""; string many; for ( int i = 0; i < n; ++i ) many += i % 2 ? "=" : " k";
	switch ( vp_choice( "case", 0, 3 ) ) { case 0: tokens( w, "=", "\"" ); break; case 1: tokens( "x" + q + "=" + q, "=", "\"" ); break; case 2: tokens( many, "=", "\"" ); break; case 3: tokens( string( size_t( n ), ' ' ) + "a" + string( size_t( n ), '\n' ) + "b", "=", "\"" ); break; }
}
