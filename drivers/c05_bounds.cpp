// the reader never leaves its buffer and always comes to an end
#include "vp.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
#include <memory>
using namespace flut;
static void op( char_stream& s, int k ) {
	switch ( k ) {
	case 0: s.getc(); break;
	case 1: s.peekc(); break;
	case 2: s.get_token(); break;
	case 3: s.get_token( "={}", "\"'" ); break;
	case 4: s.get_line(); break;
	case 5: { int v; s >> v; break; }
	case 6: { string v; s >> v; break; }
	case 7: { double v; s >> v; break; }
	}
}
DRIVER( c05_any_ops ) {
	string t = vp_any_string( "text", VP_N( 2, 3 ) );
	char_stream s( t.c_str() );
	for ( int i = 0; i < 3; ++i ) op( s, vp_choice( "operation", 0, 7 ) );
	vp_assert( true, "three operations in any order stay inside the text" );
	vp_reach( "end" );
}
DRIVER( c05_owned ) {
	string t = vp_any_string( "text", VP_N( 2, 3 ) ); 
	char_stream s( std::move( t ) );
	for ( int i = 0; i < 2; ++i ) op( s, vp_choice( "operation", 0, 7 ) );
	vp_assert( true, "operations on an owned text stay inside the text" );
}
DRIVER( c05_token_loop ) {
	string t = vp_any_string( "text", VP_N( 4, 5 ) );
	bool own = vp_choice( "owned", 0, 1 );
	char_stream s = own ? char_stream( string( t ) ) : char_stream( t.c_str() );
	size_t n = 0;
	while ( s.good() ) { s.get_token( "={}" ); ++n; if ( n > t.size() + 1 ) break; }
	vp_assert( n <= t.size(), "reading tokens until the end takes at most one token per character" );
	vp_assert( !s.good(), "reading tokens comes to an end" );
}
DRIVER( c05_line_loop ) {
	string t = vp_any_string( "text", VP_N( 4, 5 ) ); char_stream s( t.c_str() ); size_t n = 0;
	while ( s.good() ) { s.get_line(); ++n; if ( n > t.size() + 1 ) break; }
	vp_assert( n <= t.size(), "reading lines until the end takes at most one line per character" );
}
DRIVER( c05_number_loop ) {
	string t = vp_any_string_in( "text", VP_N( 4, 5 ), "1-. e+x\n" ); char_stream s( t.c_str() ); size_t n = 0;
	while ( s.good() ) { double v; s >> v; ++n; if ( n > t.size() + 1 ) break; }
	vp_assert( n <= t.size() + 1, "reading numbers until the stream is not good comes to an end" );
}
DRIVER( c05_char_loop ) {
	string t = vp_any_string( "text", VP_N( 4, 5 ) ); char_stream s( t.c_str(), "" ); size_t n = 0; bool same = true;
	const string u = t.c_str();
	while ( s.good() ) { char c = s.getc(); same = same && n < u.size() && c == u[ n ]; ++n; if ( n > u.size() + 1 ) break; }
	vp_assert( same && n == u.size(), "reading characters visits every character once" );
}
// a copy is independent of the original, and outlives it
DRIVER( c05_copy ) {
	string t = vp_string_in( "text", VP_N( 4, 5 ), "ab= \"" ); int long_text = vp_choice( "long text", 0, 1 );
	if ( long_text ) t += string( 40, 'z' );
	std::unique_ptr< char_stream > a( vp_choice( "owned", 0, 1 ) ? new char_stream( string( t ) ) : new char_stream( t.c_str() ) );
	int n = vp_choice( "tokens read before copying", 0, 3 );
	if ( n == 2 ) a->getc(); else if ( n == 3 ) { int v; *a >> v; } else if ( n ) a->get_token( "=" );
	char_stream b( *a );
	vp_assert( a->eof() == b.eof() && a->fail() == b.fail(), "a copy has the state of the original" );
	vector< string > ta, tb;
	while ( a->good() && ta.size() < 8 ) ta.push_back( a->get_token( "=" ) );
	a.reset();
	while ( b.good() && tb.size() < 8 ) tb.push_back( b.get_token( "=" ) );
	vp_assert( ta == tb, "a copy reads the same as the original, also after the original is gone" );
}
DRIVER( c05_copy_empty ) {
	static const char* T[] = { "", " ", "a", "\n " }; int k = vp_choice( "text", 0, 3 ); std::unique_ptr< char_stream > a( new char_stream( string( T[ k ] ) ) ); if ( vp_choice( "read before", 0, 1 ) ) a->get_token(); bool e = a->eof(), f = a->fail(); char p = a->peekc(); char_stream b( *a ); a.reset();
	vp_assert( b.eof() == e && b.fail() == f && b.peekc() == p, "a copy of a short text has the state of the original" ); int v = 0; b >> v; b.get_line(); b.get_token(); b.getc(); vp_assert( !b.good(), "and can be read when the original is gone" );
}
static char_stream make( const string& t ) { return char_stream( string( t ) ); }
static char_stream midway( const string& t, const char* p, int k ) { char_stream s = p ? char_stream( p, "," ) : char_stream( string( t ), "," ); for ( int i = 0; i < k; ++i ) s.getc(); return vp_choice( "moved", 0, 1 ) ? char_stream( std::move( s ) ) : s; }
// a stream handed on midway goes on where it was, with its delimiters
DRIVER( c05_handed_on ) {
	string t = vp_string_in( "text", 3, "ab," ) + ",e"; if ( vp_choice( "long text", 0, 1 ) ) t += string( 40, 'z' ); int k = vp_choice( "read", 0, 3 ); bool owned = vp_choice( "owned", 0, 1 );
	char_stream s = midway( t, owned ? nullptr : t.c_str(), k ), r( t.c_str(), "," ); for ( int i = 0; i < k; ++i ) r.getc();
	vector< string > x, y; while ( s.good() && x.size() < 8 ) x.push_back( s.get_token() ); while ( r.good() && y.size() < 8 ) y.push_back( r.get_token() ); vp_assert( x == y, "a stream handed on goes on from its position with its delimiters" );
}
DRIVER( c05_returned ) {
	string t = vp_string_in( "text", 3, "ab=" ); if ( vp_choice( "long text", 0, 1 ) ) t += string( 40, 'z' );
	char_stream s = make( t ); vp_assert( s.get_token() == t, "a stream returned by value reads its own text" );
}
// ---- larger sizes
DRIVER( c05_size ) {
	int n = vp_size_to( "size", 300, 2100 ); string t = vp_long_text( "c", n, n / 2, "a=\" \n\\" ); t[ 3 ] = ' '; char_stream s = vp_choice( "owned", 0, 1 ) ? char_stream( string( t ) ) : char_stream( t.c_str() ); char_stream c( s ); int k = 0;
	switch ( vp_choice( "operation", 0, 2 ) ) { case 0: while ( s.good() && k <= n ) { s.get_token( "=" ); ++k; } break; case 1: while ( s.good() && k <= n ) { s.get_line(); ++k; } break; case 2: while ( s.good() && k <= n ) { s.getc(); ++k; } break; }
	vp_assert( k <= n && !s.good(), "reading a long text comes to an end inside it" ); vp_assert( c.get_token() == t.substr( 0, 3 ), "a copy is independent" );
}
