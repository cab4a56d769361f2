// keyed containers: one value per key, insertion order, missing keys are errors
#include "vp.h"
#include "flut/flat_map.hpp"
#include "flut/dictionary.hpp"
#include "flut/container_tools.hpp"
using namespace flut;
DRIVER( c13_flat_map ) {
	flat_map< int, int > m; int keys[ 3 ], vals[ 3 ]; int n = 0;
	vp_assert( m.empty() && m.size() == 0, "a new map is empty" );
	for ( int i = 0; i < 3; ++i ) {
		int k = vp_int( "key", -2, 2 ), v = vp_int( "value", -1000000, 1000000 ); m[ k ] = v;
		int j = 0; while ( j < n && keys[ j ] != k ) ++j;
		if ( j == n ) keys[ n++ ] = k;
		vals[ j ] = v;
	}
	vp_assert( m.size() == size_t( n ), "every key occurs once" );
	int j = 0; for ( auto& kv : m ) { vp_assert( kv.first == keys[ j ] && kv.second == vals[ j ], "keys keep the order of insertion and their latest value" ); ++j; }
	const auto& c = m; int q = vp_choice( "asked", -2, 2 ); int f = 0; while ( f < n && keys[ f ] != q ) ++f;
	vp_assert( c.has_key( q ) == ( f < n ) && c.count( q ) == ( f < n ? 1u : 0u ), "a key is present exactly when it was inserted" );
	if ( f < n ) vp_assert( c.at( q ) == vals[ f ] && c[ q ] == vals[ f ] && m.at( q ) == vals[ f ] && c.find( q )->second == vals[ f ] && m.find( q )->second == vals[ f ], "looking up a key gives its value" );
	else { vp_assert( vp_throws( [&] { c.at( q ); } ) && vp_throws( [&] { c[ q ]; } ) && vp_throws( [&] { m.at( q ); } ), "looking up a missing key is an error" ); vp_assert( c.find( q ) == c.end() && m.find( q ) == m.end() && m.size() == size_t( n ), "a failed search changes nothing" ); }
}
DRIVER( c13_flat_default ) { flat_map< string, int > m; vp_assert( m[ "a" ] == 0 && m.size() == 1, "a new key starts with the default value" ); m[ "a" ] = 4; m[ "b" ]; vp_assert( m[ "a" ] == 4 && m.size() == 2, "a key that exists is not replaced" ); m.erase( m.find( "a" ) ); vp_assert( m.size() == 1 && !m.has_key( "a" ) && m.has_key( "b" ), "an erased key is gone, others stay" ); m.clear(); vp_assert( m.empty(), "a cleared map is empty" ); }
DRIVER( c13_flat_string ) {
	flat_map< string, int > m; m[ "x" ] = 1; m[ "xy" ] = 2; m[ "" ] = 3; string q = vp_any_string_in( "key", 2, "xyz" );
	int v = q == "x" ? 1 : q == "xy" ? 2 : q == "" ? 3 : 0;
	if ( v ) vp_assert( m.at( q ) == v && m[ q ] == v && m.size() == 3, "a key is found by its text" ); else { vp_assert( vp_throws( [&] { m.at( q ); } ), "a missing text is an error" ); m[ q ] = 9; vp_assert( m.at( q ) == 9 && m.size() == 4 && m.at( "x" ) == 1, "a missing text is added" ); }
}
enum shape { circle, square, line };
DRIVER( c13_dictionary ) {
	dictionary< shape > d = { { circle, "circle" }, { square, "square" } };
	int k = vp_choice( "case", 0, 4 );
	if ( k == 0 ) vp_assert( d( circle ) == "circle" && d( square ) == "square", "an element has its name" );
	if ( k == 1 ) vp_assert( d( string( "circle" ) ) == circle && d( string( "square" ) ) == square, "a name has its element" );
	if ( k == 2 ) vp_assert( vp_throws( [&] { d( line ); } ) && vp_throws( [&] { d( string( "line" ) ); } ) && vp_throws( [&] { d( string( "" ) ); } ) && vp_throws( [&] { d( string( "circl" ) ); } ), "an unknown element or name is an error" );
	if ( k == 3 ) { shape def = line; vp_assert( d( "square", def ) == square && d( "line", def ) == line && d( "", def ) == line, "an unknown name gives the default, a known one its element" ); }
	if ( k == 4 ) { auto e = make_dictionary< int >( { { 1, "a" }, { 2, "b" }, { 3, "a" } } ); vp_assert( e( 1 ) == "a" && e( 3 ) == "a" && e( string( "a" ) ) == 1 && e( string( "b" ) ) == 2, "the first entry of a name counts" ); }
}
DRIVER( c13_dictionary_any ) { dictionary< int > d = { { 4, "ab" }, { -7, "b" }, { 9, "" } }; string q = vp_any_string_in( "name", 2, "ab" ); int e = q == "ab" ? 4 : q == "b" ? -7 : q == "" ? 9 : 0; int def = 77; if ( e ) vp_assert( d( q ) == e && d( q, def ) == e, "a name has its element" ); else vp_assert( vp_throws( [&] { d( q ); } ) && d( q, def ) == 77, "an unknown name has no element" );
	int x = vp_int( "element", -100, 100 ); if ( x == 4 ) vp_assert( d( x ) == "ab", "an element has its name" ); else if ( x == -7 ) vp_assert( d( x ) == "b", "an element has its name" ); else if ( x == 9 ) vp_assert( d( x ) == "", "an element has its name" ); else vp_assert( vp_throws( [&] { d( x ); } ), "an unknown element has no name" ); }
DRIVER( c13_lookup ) {
	string q = vp_any_string_in( "name", 2, "ab" );
	auto f = [&] { return lookup< int >( q, { { "a", 1 }, { "ab", 2 }, { "b", 3 }, { "a", 4 } } ); };
	if ( q == "a" ) vp_assert( f() == 1, "the first entry with the name" ); else if ( q == "ab" ) vp_assert( f() == 2, "the entry with the name" ); else if ( q == "b" ) vp_assert( f() == 3, "the entry with the name" ); else vp_assert( vp_throws( f ), "an unknown name is an error" );
}
// ---- larger sizes
DRIVER( c13_size ) {
	int n = vp_size_to( "keys", 140, 1100 ); flat_map< int, int > m; for ( int i = 0; i < n; ++i ) m[ ( i * 7 ) % 1009 ] = i; int q = vp_choice( "asked", 0, 2 ), k = q == 0 ? 0 : q == 1 ? n - 1 : n / 2; int v = vp_int( "value", -5, 5 ); m[ ( k * 7 ) % 1009 ] = v;
	vp_assert( m.size() == size_t( n ), "every key occurs once" ); int j = 0; for ( auto& kv : m ) { vp_assert( kv.first == ( j * 7 ) % 1009 && kv.second == ( j == k ? v : j ), "keys keep their order and values" ); ++j; } vp_assert( j == n && vp_throws( [&] { m.at( 1010 ); } ) && m.at( ( ( n - 1 ) * 7 ) % 1009 ) == ( k == n - 1 ? v : n - 1 ), "keys are found among many" );
}
