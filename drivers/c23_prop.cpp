// configuration text: what is saved is what is loaded
#include "vp.h"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static void round_trip( prop_node& pn, const char* what, bool twice = false ) {
	bool readable = vp_choice( "readable", 0, 1 ) != 0; vp_assert( save_prop( pn, path( "f.prop" ), readable ), "saving succeeds" );
	prop_node r = load_prop( path( "f.prop" ) ); vp_assert( r == pn, what ); if ( twice ) { error_code ec; prop_node q = load_prop( path( "f.prop" ), &ec ); vp_assert( ec.ok() && q == pn, "loading with an error code reports no error and gives the same" ); }
}
DRIVER( c23_value ) { prop_node pn; pn.push_back( "k", vp_any_string( "value", VP_N( 2, 3 ) ) ); pn.push_back( "next", string( "v" ) ); round_trip( pn, "every value is read back as it was saved", true ); }
DRIVER( c23_nested_value ) { prop_node pn; auto& c = pn.push_back( "k" ); c.push_back( "x", vp_any_string( "value", 2 ) ); c.push_back( "y", string( "v" ) ); pn.push_back( "z", string( "w" ) ); round_trip( pn, "every nested value is read back as it was saved" ); }
DRIVER( c23_label ) { prop_node pn; string l = vp_string_in( "first", 1, "azAZ" ) + vp_any_string( "label", VP_N( 1, 2 ) ); pn.push_back( l, string( "v" ) ); pn.push_back( "n", string( "w" ) ); round_trip( pn, "every label that starts with a letter is read back as it was saved" ); }
DRIVER( c23_nested_label ) { prop_node pn; auto& c = pn.push_back( "k" ); string l = vp_string_in( "first", 1, "az" ) + vp_string( "label", 1 ); c.push_back( l ).push_back( l, string( "v" ) ); pn.push_back( "z", string( "w" ) ); round_trip( pn, "every nested label that starts with a letter is read back as it was saved", true ); }
static void grow( prop_node& pn, int depth, int& left ) {
	int n = vp_choice( "children", 0, 2 ); static const char* K[] = { "a", "b c" }; static const char* V[] = { "", "1 {}" };
	for ( int i = 0; i < n && left > 0; ++i ) { --left; auto& c = pn.push_back( K[ i ] ); c.set_value( string( V[ vp_choice( "value", 0, 1 ) ] ) ); if ( depth > 0 ) grow( c, depth - 1, left ); }
}
DRIVER( c23_shape ) { prop_node pn; int left = VP_N( 3, 4 ); grow( pn, 2, left ); round_trip( pn, "every tree is read back with the same shape, with values on any node" ); }
DRIVER( c23_long ) { prop_node pn; pn.push_back( "k", string( "a value that does not fit into a small string " ) + vp_string( "v", 1 ) + " and goes on" ); pn.push_back( "a_long_label_that_is_longer_than_sixteen", string( "1" ) ); round_trip( pn, "long values are read back as they were saved" ); }
// reading
static bool has( const prop_node& pn, size_t i, const char* k, const char* v ) { return i < pn.size() && pn.get_key( i ) == k && pn.get_child( i ).get_value() == v; }
DRIVER( c23_layout ) {
	static const char* W[] = { " ", "\n", "\t", "\r\n", ";", "\v", "  ", "" }; string s1 = " ", s2 = " ", s3 = "\n"; if ( vp_choice( "which", 0, 1 ) ) { s1 = W[ vp_choice( "before", 0, 7 ) ]; s2 = W[ vp_choice( "after", 0, 7 ) ]; } else { s1 = s2 = W[ vp_choice( "around", 5, 7 ) ]; s3 = W[ vp_choice( "between", 1, 5 ) ]; }
	prop_node pn = parse_prop( ( "a" + s1 + "=" + s2 + "1" + s3 + "b" + s1 + "{" + s2 + "c = 2" + s3 + "}" + s3 + "d = 3" ).c_str() );
	vp_assert( pn.size() == 3 && has( pn, 0, "a", "1" ) && has( pn, 1, "b", "" ) && has( pn, 2, "d", "3" ) && pn[ 1 ].size() == 1 && has( pn[ 1 ], 0, "c", "2" ), "layout between the parts does not matter" );
}
DRIVER( c23_comment ) {
	string c = vp_any_string_in( "comment", VP_N( 2, 3 ), " a%=\"'{}#\\" ); int where = vp_choice( "where", 0, 3 ); string t;
	switch ( where ) { case 0: t = "%" + c + "\na = 1\nb = 2"; break; case 1: t = "a = 1 %" + c + "\nb = 2\n"; break; case 2: t = "a = 1\n%" + c + "\nb = 2"; break; case 3: t = "a = 1\nb = 2\n%" + c; break; }
	prop_node pn = parse_prop( t.c_str() ); vp_assert( pn.size() == 2 && has( pn, 0, "a", "1" ) && has( pn, 1, "b", "2" ), "a comment ends with its line and nothing else is lost" );
}
DRIVER( c23_comment_nested ) { string c = vp_any_string_in( "comment", 2, " a%=}" ); prop_node pn = parse_prop( ( "g {%" + c + "\n\ta = 1\n%" + c + "\n}\nb = 2" ).c_str() ); vp_assert( pn.size() == 2 && pn[ 0 ].size() == 1 && has( pn[ 0 ], 0, "a", "1" ) && has( pn, 1, "b", "2" ), "a comment in a group ends with its line and nothing else is lost" ); }
DRIVER( c23_blank ) {
	static const char* B[] = { "", " ", "   ", " \t", "\t ", " \t " }; string b = B[ vp_choice( "blank", 0, 5 ) ]; int where = vp_choice( "where", 0, 5 ); auto at = [&]( int k ) { return where == k ? b + "\n" : string(); };
	prop_node pn = parse_prop( ( at( 0 ) + "a = 1\n" + at( 1 ) + "b\n" + at( 2 ) + "{\n" + at( 3 ) + "c = 2\n" + at( 4 ) + "}\n" + at( 5 ) + "d = 3" ).c_str() );
	vp_assert( pn.size() == 3 && has( pn, 0, "a", "1" ) && has( pn, 1, "b", "" ) && has( pn, 2, "d", "3" ) && pn[ 1 ].size() == 1 && has( pn[ 1 ], 0, "c", "2" ), "blank lines do not matter" );
	prop_node e = parse_prop( ( "a =" + b + "\nb = 2" ).c_str() ); if ( where == 1 && b == " " ) vp_assert( e.size() == 2 && has( e, 0, "a", "" ) && has( e, 1, "b", "2" ), "a missing value is an empty value" );
}
DRIVER( c23_quotes ) { string q = vp_choice( "quote", 0, 1 ) ? "\"" : "'"; string v = vp_any_string_in( "text", 2, " a={}%;\t\n" ); prop_node pn = parse_prop( ( "a = " + q + v + q + " \nb = 2" ).c_str() ); vp_assert( pn.size() == 2 && has( pn, 0, "a", v.c_str() ) && has( pn, 1, "b", "2" ), "text between quotes is taken as it is" ); }
DRIVER( c23_empty ) { vp_assert( parse_prop( "" ).empty() && parse_prop( " \n\t" ).empty() && parse_prop( "% only a comment" ).empty(), "text without nodes is an empty tree" ); prop_node l( "a = 1" ); vp_assert( has( l, 0, "a", "1" ), "a tree can be made from a literal" ); }
DRIVER( c23_invalid ) {
	char c = vp_char_in( "first", "0123456789.,+-*/<>()[]_!@#$&" ); string t = string( "a { " ) + c + string( "x = 1 }" );
	vp_assert( vp_throws( [&] { parse_prop( t.c_str() ); } ), "an invalid label in a group is an error" ); error_code ec; prop_node pn = parse_prop( t.c_str(), &ec ); vp_assert( ec.error() && !ec.ok() && ec.code() != 0 && !ec.message().empty() && pn.empty(), "an error is reported through the error code when there is one" );
}
DRIVER( c23_missing ) {
	vp_assert( vp_throws( [] { load_prop( path( "none.prop" ) ); } ) && vp_throws( [] { load_file( path( "none.prop" ) ); } ), "a missing file is an error" ); error_code ec; prop_node pn = load_prop( path( "none.prop" ), &ec ); vp_assert( ec.error() && pn.empty(), "a missing file is reported through the error code when there is one" );
	error_code x; prop_node e = load_xml( path( "none.xml" ), &x ); vp_assert( x.error() && e.empty(), "a missing file is reported through the error code when there is one" );
}
DRIVER( c23_fault ) { int mask = vp_choice( "fault", 0, 7 ); prop_node pn; pn.push_back( "a", string( "1" ) ); vp_fs_fail( mask ); bool ok = save_prop( pn, path( "f.prop" ) ); vp_assert( ok == ( mask == 0 ), "saving reports success exactly when the file is complete" ); }
DRIVER( c23_error_code ) { error_code e; vp_assert( e.ok() && !e.error() && e.code() == 0 && e.message().empty() && no_error().ok(), "no error at first" ); int c = vp_int( "code", -5, 5 ); e.set( c, "text" ); vp_assert( e.code() == c && e.error() == ( c != 0 ) && e.ok() == ( c == 0 ) && e.message() == "text", "an error code keeps what it was given" ); vp_assert( error( "x" ).error() && error( "x" ).message() == "x", "an error made from a message is an error" ); error_code f; vp_assert( try_set_error( &f, "m" ) && f.error() && f.message() == "m" && !try_set_error( nullptr, "m" ), "an error is set exactly when there is somewhere to set it" ); }
DRIVER( c23_again ) { // saving replaces what was there
	vp_fs_put( "f.prop", string( "old = 1\nolder { x = 2 }\noldest = \"a longer text that goes on after the new one\"\n" ) ); prop_node pn; if ( vp_choice( "empty", 0, 1 ) ) pn.push_back( "k", vp_any_string_in( "value", 2, "a {\"" ) ); bool readable = vp_choice( "readable", 0, 1 ) != 0; vp_assert( save_prop( pn, path( "f.prop" ), readable ), "saving over another file succeeds" ); prop_node r = load_prop( path( "f.prop" ) ); vp_assert( r == pn, "saving replaces what was in the file" );
	prop_node l; l.push_back( "k", string( "v" ) ).push_back( "w", string( 30, 'x' ) ); vp_assert( save_prop( l, path( "f.prop" ), readable ) && load_prop( path( "f.prop" ) ) == l && save_prop( pn, path( "f.prop" ), readable ) && load_prop( path( "f.prop" ) ) == pn, "also what was saved before" );
}
// ---- larger sizes
DRIVER( c23_size_value ) { int n = vp_size_to( "length", 140, 1100 ); prop_node pn; if ( vp_choice( "label", 0, 1 ) ) pn.push_back( string( size_t( n ), 'l' ), string( "v" ) ); else pn.push_back( "k", vp_long_text( "c", n, n / 2, "a \"\\{\n" ) ); pn.push_back( "next", string( "v" ) ); round_trip( pn, "values and labels of any length are read back as they were saved" ); }
DRIVER( c23_size_children ) { int n = vp_size_to( "children", 40, 300 ); prop_node pn; auto& g = pn.push_back( "g" ); for ( int i = 0; i < n; ++i ) g.push_back( string( 1, char( 'a' + i % 26 ) ) + std::to_string( i ), i ); pn.push_back( "z", vp_string_in( "v", 1, "a 1" ) ); round_trip( pn, "any number of children is read back" ); }
DRIVER( c23_size_depth ) { int n = vp_size_to( "depth", 20, 300 ); prop_node pn; prop_node* p = &pn; for ( int i = 0; i < n; ++i ) p = &p->push_back( "x" ); p->set_value( vp_string_in( "v", 1, "a 1" ) ); pn.push_back( "z", string( "w" ) ); round_trip( pn, "a tree of any depth is read back" ); }
DRIVER( c23_size_layout ) { int n = vp_size_to( "size", 300, 1100 ); string b( size_t( n ), vp_char_in( "blank", " \t\n;" ) ), c = "%" + string( size_t( n ), 'c' ) + "\n"; prop_node pn = parse_prop( ( c + b + "a" + b + "=" + " 1\n" + b + c + "b" + b + "{" + b + "c = 2" + b + "}" + b + c + "d = 3" + b ).c_str() ); vp_assert( pn.size() == 3 && has( pn, 0, "a", "1" ) && has( pn, 1, "b", "" ) && has( pn, 2, "d", "3" ) && pn[ 1 ].size() == 1 && has( pn[ 1 ], 0, "c", "2" ), "layout and comments of any length do not matter" ); }
