// include directives
#include "vp.h"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static bool has( const prop_node& pn, size_t i, const char* k, const string& v ) { return i < pn.size() && pn.get_key( i ) == k && pn.get_child( i ).get_value() == v; }
DRIVER( c24_include ) {
	string v = vp_string_in( "value", 1, "0123456789abcxyz" ); int where = vp_choice( "position", 0, 2 ), depth = vp_choice( "depth", 0, 1 );
	string inc = "INCLUDE { file = sub.prop }\n", l[ 3 ] = { "a = 1\n", "b = 2\n", "" }; string body; for ( int i = 0; i < 3; ++i ) { if ( i == where ) body += inc; body += l[ i ]; }
	vp_fs_put( "d/main.prop", depth ? "g {\n" + body + "}\nz = 3\n" : body ); vp_fs_put( "d/sub.prop", "s {\n x = " + v + "\n y = 5\n}\n" );
	prop_node pn = load_file_with_include( path( "d/main.prop" ) ); const prop_node& g = depth ? pn[ 0 ] : pn; vp_assert( g.size() == 3 && ( !depth || ( pn.size() == 2 && has( pn, 1, "z", "3" ) ) ), "an include is replaced by the included node" );
	size_t k = size_t( where ); vp_assert( g.get_key( k ) == "s" && g[ k ].size() == 2 && has( g[ k ], 0, "x", v ) && has( g[ k ], 1, "y", "5" ), "the included node takes the place of the include" );
	size_t a = where == 0 ? 1 : 0, b = where <= 1 ? 2 : 1; vp_assert( has( g, a, "a", "1" ) && has( g, b, "b", "2" ), "the other nodes keep their place" );
}
DRIVER( c24_fresh ) { vp_fs_put( "d/main.prop", "a = 1\nINCLUDE { file = sub.prop }\n" ); vp_fs_put( "d/sub.prop", "s { x = 1 }" ); prop_node pn = load_file_with_include( path( "d/main.prop" ) ); size_t n = pn.count_unaccessed(); vp_assert( n == 4, "a loaded tree has not been accessed" ); }
DRIVER( c24_several ) {
	int n = vp_choice( "includes", 1, 3 ); string t; for ( int i = 0; i < n; ++i ) t += "INCLUDE { file = sub.prop }\n"; vp_fs_put( "main.prop", t + "e = 1" ); vp_fs_put( "sub.prop", "s = v" ); prop_node pn = load_file_with_include( path( "main.prop" ) );
	vp_assert( pn.size() == size_t( n + 1 ) && has( pn, size_t( n ), "e", "1" ), "every include is resolved" ); for ( int i = 0; i < n; ++i ) vp_assert( has( pn, size_t( i ), "s", "v" ), "every include is resolved" );
}
DRIVER( c24_chain ) {
	vp_fs_put( "x/main.prop", "m { INCLUDE { file = y/one.prop } }" ); vp_fs_put( "x/y/one.prop", "o { INCLUDE { file = two.prop }\n q = 1 }" ); vp_fs_put( "x/y/two.prop", "t = deep" ); prop_node pn = load_file_with_include( path( "x/main.prop" ) );
	vp_assert( pn.size() == 1 && pn[ "m" ].size() == 1 && pn[ "m" ][ "o" ].size() == 2 && has( pn[ "m" ][ "o" ], 0, "t", "deep" ) && has( pn[ "m" ][ "o" ], 1, "q", "1" ), "included files are found relative to the file that includes them" );
}
DRIVER( c24_directive ) { vp_fs_put( "main.prop", "USE { file = sub.prop }\nINCLUDE { file = none.prop }" ); vp_fs_put( "sub.prop", "s = v" ); prop_node pn = load_file_with_include( path( "main.prop" ), "USE" ); vp_assert( pn.size() == 2 && has( pn, 0, "s", "v" ) && pn.get_key( 1 ) == "INCLUDE", "only the given directive includes" ); }
DRIVER( c24_merge ) {
	int mine = vp_choice( "own", 0, 2 ); vp_fs_put( "main.prop", string( mine == 1 ? "x = own\n" : "" ) + "INCLUDE { file = sub.prop\n merge_children = 1 }\n" + ( mine == 2 ? "x = own\n" : "" ) + "y = 2" ); vp_fs_put( "sub.prop", "s { x = sub\n w = 3 }" );
	prop_node pn = load_file_with_include( path( "main.prop" ) ); vp_assert( pn.size() == 3 && !pn.has_key( "s" ) && !pn.has_key( "INCLUDE" ) && pn.get< string >( "x" ) == ( mine ? "own" : "sub" ) && pn.get< string >( "y" ) == "2" && pn.get< string >( "w" ) == "3", "merging adds the children that are missing and keeps those that are there" );
}
DRIVER( c24_merge_nested ) { vp_fs_put( "main.prop", "INCLUDE { file = a.prop\n merge_children = 1 }" ); vp_fs_put( "a.prop", "r { p { INCLUDE { file = b.prop } } }" ); vp_fs_put( "b.prop", "t = v" ); prop_node pn = load_file_with_include( path( "main.prop" ) ); vp_assert( pn.size() == 1 && pn[ "p" ].size() == 1 && has( pn[ "p" ], 0, "t", "v" ), "includes of merged files are resolved" ); }
DRIVER( c24_errors ) {
	vp_fs_put( "missing.prop", "INCLUDE { file = none.prop }" ); vp_fs_put( "nofile.prop", "INCLUDE { x = 1 }" ); vp_fs_put( "two.prop", "INCLUDE { file = pair.prop }" ); vp_fs_put( "pair.prop", "a = 1\nb = 2" ); vp_fs_put( "empty.prop", "INCLUDE { file = void.prop }" ); vp_fs_put( "void.prop", "" );
	vp_assert( vp_throws( [] { load_file_with_include( path( "missing.prop" ) ); } ), "a missing included file is an error" ); vp_assert( vp_throws( [] { load_file_with_include( path( "nofile.prop" ) ); } ), "an include without a file is an error" );
	vp_assert( vp_throws( [] { load_file_with_include( path( "two.prop" ) ); } ) && vp_throws( [] { load_file_with_include( path( "empty.prop" ) ); } ), "an included file must have a single root node" ); vp_assert( vp_throws( [] { load_file_with_include( path( "void2.prop" ) ); } ), "a missing file is an error" );
}
DRIVER( c24_loop ) { vp_fs_put( "a.prop", "x { INCLUDE { file = b.prop } }" ); vp_fs_put( "b.prop", "y { INCLUDE { file = a.prop } }" ); vp_fs_put( "s.prop", "INCLUDE { file = s.prop }" ); vp_assert( vp_throws( [] { load_file_with_include( path( "a.prop" ) ); } ), "files that include each other are an error" ); vp_assert( vp_throws( [] { load_file_with_include( path( "s.prop" ) ); } ), "a file that includes itself is an error" ); }
DRIVER( c24_directive_nested ) { vp_fs_put( "main.prop", "m { USE { file = one.prop } }" ); vp_fs_put( "one.prop", "o { USE { file = two.prop }\n INCLUDE { file = none.prop } }" ); vp_fs_put( "two.prop", "s = v" ); prop_node pn = load_file_with_include( path( "main.prop" ), "USE" ); vp_assert( pn.size() == 1 && pn[ 0 ].size() == 1 && pn[ 0 ][ 0 ].size() == 2 && has( pn[ 0 ][ 0 ], 0, "s", "v" ) && pn[ 0 ][ 0 ].get_key( 1 ) == "INCLUDE", "the directive is the same in included files" ); }
DRIVER( c24_merge_more ) {
	int first = vp_choice( "merge first", 0, 1 ), second = vp_choice( "merge second", 0, 1 ); auto inc = []( const char* f, int merge ) { return string( "INCLUDE { file = " ) + f + ( merge ? "\n merge_children = 1 }\n" : " }\n" ); }; vp_fs_put( "main.prop", inc( "a.prop", first ) + "k = 1\ng { " + inc( "b.prop", 0 ) + "}\n" + inc( "b.prop", second ) + "l = 2" ); vp_fs_put( "a.prop", "r { x = 3\n INCLUDE { file = b.prop } }" ); vp_fs_put( "b.prop", "s { y = 4 }" );
	prop_node pn = load_file_with_include( path( "main.prop" ) ); vp_assert( !pn.has_key( "INCLUDE" ) && pn[ "g" ].size() == 1 && pn[ "g" ].get_key( 0 ) == "s" && pn[ "g" ][ 0 ].size() == 1 && has( pn[ "g" ][ 0 ], 0, "y", "4" ), "includes after a merged one are resolved" ); vp_assert( pn.get< string >( "k" ) == "1" && pn.get< string >( "l" ) == "2", "the other nodes are kept" );
	const prop_node& r = first ? pn : pn[ "r" ]; vp_assert( r.get< string >( "x" ) == "3" && r[ "s" ].size() == 1 && has( r[ "s" ], 0, "y", "4" ), "includes in the first file are resolved" ); if ( second ) vp_assert( pn.get< string >( "y" ) == "4", "the second include is merged" ); else vp_assert( pn.has_key( "s" ) && has( pn[ "s" ], 0, "y", "4" ), "the second include is resolved" );
}
// ---- larger sizes
DRIVER( c24_size_chain ) { int n = vp_size( "files", 18 ); for ( int i = 0; i < n; ++i ) vp_fs_put( ( "f" + std::to_string( i ) + ".prop" ).c_str(), i + 1 < n ? "x { INCLUDE { file = f" + std::to_string( i + 1 ) + ".prop } }" : string( "y = 5" ) ); prop_node pn = load_file_with_include( path( "f0.prop" ) ); const prop_node* p = &pn; int k = 0; while ( p->size() == 1 && p->get_key( 0 ) == "x" && k < n ) { p = &p->get_child( 0 ); ++k; } vp_assert( k == n - 1 && has( *p, 0, "y", "5" ), "a chain of includes of any length is resolved" ); }
DRIVER( c24_size_several ) { int n = vp_size_to( "includes", 40, 300 ); string t; for ( int i = 0; i < n; ++i ) t += "INCLUDE { file = sub.prop }\nm" + std::to_string( i ) + " = 1\n"; vp_fs_put( "main.prop", t ); vp_fs_put( "sub.prop", "s = v" ); prop_node pn = load_file_with_include( path( "main.prop" ) ); bool ok = pn.size() == size_t( 2 * n ); for ( int i = 0; ok && i < n; ++i ) ok = has( pn, size_t( 2 * i ), "s", "v" ) && pn.get_key( size_t( 2 * i + 1 ) ) == "m" + std::to_string( i ); vp_assert( ok, "any number of includes is resolved in place" ); }
