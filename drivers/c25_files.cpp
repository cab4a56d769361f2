// ini and xml files
#include "vp.h"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static bool has( const prop_node& pn, size_t i, const char* k, const string& v ) { return i < pn.size() && pn.get_key( i ) == k && pn.get_child( i ).get_value() == v; }
// ini files
DRIVER( c25_ini ) {
	static const char* C = "abcXYZ019 .,_-:;\"'{}%"; int order = vp_choice( "order", 0, 2 ); string v = vp_string_in( "value", 1, "ab019.=#[]" ) + "v", w = "w" + vp_any_string_in( "w", 1, C ) + "w"; prop_node pn;
	if ( order == 0 ) pn.push_back( "m", v ); auto& g = pn.push_back( "group one" ); g.push_back( "x", w ); g.push_back( "y", string( "2" ) ); if ( order == 1 ) pn.push_back( "m", v ); auto& h = pn.push_back( "h" ); h.push_back( "x", string( "3" ) ); if ( order == 2 ) pn.push_back( "m", v );
	save_ini( pn, path( "f.ini" ) ); prop_node r = load_ini( path( "f.ini" ) ); vp_assert( r.size() == 3 && r.get< string >( "m" ) == v && r[ "group one" ].size() == 2 && r[ "group one" ].get< string >( "x" ) == w && r[ "group one" ].get< string >( "y" ) == "2" && r[ "h" ].size() == 1 && r[ "h" ].get< string >( "x" ) == "3", "groups and values are read back as they were saved" );
}
DRIVER( c25_ini_empty ) {
	bool main = vp_choice( "item", 0, 1 ), in = vp_choice( "group item", 0, 1 ); prop_node pn; pn.push_back( "a", string( main ? "" : "1" ) ); pn.push_back( "b", string( "2" ) ); auto& g = pn.push_back( "g" ); g.push_back( "x", string( in ? "" : "3" ) ); g.push_back( "y", string( "4" ) );
	save_ini( pn, path( "f.ini" ) ); prop_node r = load_ini( path( "f.ini" ) ); vp_assert( r == pn, "items without a value are read back" );
}
DRIVER( c25_ini_text ) {
	string c = vp_any_string_in( "comment", 2, " a=[]#" ); int where = vp_choice( "where", 0, 3 ); auto at = [&]( int k ) { return where == k ? "#" + c + "\n" : string( "\n" ); };
	vp_fs_put( "f.ini", at( 0 ) + "a = 1\n" + at( 1 ) + "[ g ]\n" + at( 2 ) + "  b=2  \r\n" + at( 3 ) + "[h]\nc =  3" ); prop_node r = load_ini( path( "f.ini" ) );
	vp_assert( r.size() == 3 && has( r, 0, "a", "1" ) && r[ 1 ].size() == 1 && has( r[ 1 ], 0, "b", "2" ) && r.get_key( 2 ) == "h" && has( r[ 2 ], 0, "c", "3" ), "comments and blank lines do not matter, spaces around keys and values are dropped" );
	vp_fs_put( "e.ini", "[g]\nno value" ); vp_assert( vp_throws( [] { load_ini( path( "e.ini" ) ); } ) && vp_throws( [] { load_ini( path( "none.ini" ) ); } ), "a line without a value and a missing file are errors" );
}
DRIVER( c25_ini_key ) {
	string k = vp_string_in( "key", 1, "ab1._-;:/ \"{%" ); vp_assume( k != " " ); string K = k + vp_any_string_in( "rest", 1, "a.;:/" ), v = vp_string_in( "value", 1, "a1.;" ); prop_node pn; pn.push_back( K, v ); auto& g = pn.push_back( "g.h" ); g.push_back( K, v ); g.push_back( "x.y.z", string( "1" ) ); save_ini( pn, path( "f.ini" ) ); prop_node r = load_ini( path( "f.ini" ) ); vp_assert( r == pn, "keys with points and other signs are read back" );
}
DRIVER( c25_ini_same ) { prop_node pn; int n = vp_choice( "groups", 1, 3 ); static const char* N[] = { "g", "h" }; for ( int i = 0; i < n; ++i ) pn.push_back( N[ vp_choice( "name", 0, 1 ) ] ).push_back( N[ vp_choice( "key", 0, 1 ) ], i ); save_ini( pn, path( "f.ini" ) ); prop_node r = load_ini( path( "f.ini" ) ); vp_assert( r == pn, "groups with the same name stay apart" ); vp_fs_put( "f.ini", string( "a=a longer text\nb=1\n[g]\nc=and more of it\n" ) ); save_ini( pn, path( "f.ini" ) ); vp_assert( load_ini( path( "f.ini" ) ) == pn, "saving replaces what was in the file" ); }
// xml files
DRIVER( c25_xml ) {
	prop_node pn; auto& r = pn.push_back( "root" ); string v = vp_any_string_in( "v", VP_N( 2, 3 ), "ab<>&\"'09=/;# \n\t" ); r.push_back( "a", "x" + v + "x" ); r.push_back( "b" ).push_back( "c", string( "2" ) ); r.push_back( "a", string( "3" ) );
	save_xml( pn, path( "f.xml" ) ); prop_node q = load_xml( path( "f.xml" ) ); vp_assert( q.size() == 1 && q.get_key( 0 ) == "root" && q[ 0 ].size() == 3 && has( q[ 0 ], 0, "a", "x" + v + "x" ) && q[ 0 ].get_key( 1 ) == "b" && has( q[ 0 ][ 1 ], 0, "c", "2" ) && has( q[ 0 ], 2, "a", "3" ), "nodes and values are read back as they were saved" ); prop_node l = load_file( path( "f.xml" ) ); vp_assert( l == q, "the kind of a file follows from its extension" );
}
DRIVER( c25_xml_text ) {
	vp_fs_put( "a.xml", "<?xml version=\"1.0\"?>\n<!-- comment -->\n<r k=\"v\" l='w'>\n  <e>text</e>\n  <f/>\n  <g m=\"&lt;&amp;\">&gt;</g>\n</r>\n" ); prop_node q = load_xml( path( "a.xml" ) ); vp_assert( q.size() == 1 && q.get_key( 0 ) == "r" && q[ 0 ].size() == 5 && has( q[ 0 ], 0, "k", "v" ) && has( q[ 0 ], 1, "l", "w" ) && has( q[ 0 ], 2, "e", "text" ) && has( q[ 0 ], 3, "f", "" ) && has( q[ 0 ], 4, "g", ">" ) && has( q[ 0 ][ 4 ], 0, "m", "<&" ), "attributes and elements become children" );
}
DRIVER( c25_xml_errors ) { static const char* T[] = { "<r", "<r>", "<r a></r>", "text", "<r>&lt;</r", "<r a=\"1></r>" }; vp_fs_put( "a.xml", T[ vp_choice( "text", 0, 5 ) ] ); vp_assert( vp_throws( [] { load_xml( path( "a.xml" ) ); } ), "text that is not well-formed is an error" ); error_code ec; prop_node pn = load_xml( path( "a.xml" ), &ec ); vp_assert( ec.error() && pn.empty(), "text that is not well-formed is reported through the error code when there is one" ); vp_fs_put( "e.xml", "" ); vp_assert( load_xml( path( "e.xml" ) ).empty(), "an empty file is an empty tree" ); }
DRIVER( c25_format_names ) {
	static const char* N[] = { "a.xml.cfg", "xml", "a.xmlx", "a.XML.zml", "d.xml/f", "a.xml", "a.b.xml", "d.zml/f.xml" }; int k = vp_choice( "name", 0, 7 ); bool x = k >= 5; vp_fs_mkdir( "d.xml" ); vp_fs_mkdir( "d.zml" ); vp_fs_put( N[ k ], x ? "<r><v>1</v></r>" : "r { v = 1 }" );
	prop_node q; bool failed = vp_throws( [&] { q = load_file( path( N[ k ] ) ); } ); vp_assert( !failed && q.size() == 1 && q.get_key( 0 ) == "r" && q[ 0 ].size() == 1 && has( q[ 0 ], 0, "v", "1" ), "the format follows from the extension of the file name alone" );
}
// ---- larger sizes
DRIVER( c25_size ) {
	int n = vp_size_to( "size", 70, 520 ), xml = vp_choice( "xml", 0, 1 ); string v = vp_long_text( "c", n, n / 2, "ab1" ); prop_node pn; prop_node& r = xml ? pn.push_back( "root" ) : pn; auto& g = r.push_back( "g" ); for ( int i = 0; i < n; ++i ) g.push_back( "k" + std::to_string( i ), i ); auto& h = r.push_back( "h" ); h.push_back( "v", v ); if ( xml ) h.push_back( "w", "x" + string( size_t( n ), '<' ) + "x" );
	prop_node q; if ( xml ) { save_xml( pn, path( "f.xml" ) ); q = load_xml( path( "f.xml" ) ); } else { save_ini( pn, path( "f.ini" ) ); q = load_ini( path( "f.ini" ) ); } vp_assert( q == pn, "many items and long values are read as written" );
}
