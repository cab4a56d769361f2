// property trees: after any history of changes, children, values and order are what was put in
#include "vp.h"
#include <vector>
#include <utility>
#include <sstream>
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/system/log_sink.hpp"
using namespace flut;
static const char* K[] = { "a", "b", "ab" };
struct model { std::vector< std::pair< string, string > > v; int find( const string& k ) const { for ( size_t i = 0; i < v.size(); ++i ) if ( v[ i ].first == k ) return int( i ); return -1; } };
static void agree( const prop_node& pn, const model& m ) {
	vp_assert( pn.size() == m.v.size(), "a tree has the children that were added" );
	vp_assert( pn.empty() == m.v.empty() && !pn.has_value(), "a tree without children and value is empty" );
	size_t i = 0; for ( auto& e : pn ) { vp_assert( i < m.v.size() && e.first == m.v[ i ].first && e.second.get< string >() == m.v[ i ].second, "children keep their order, keys and values" ); ++i; }
	vp_assert( i == m.v.size(), "iterating visits every child" );
	for ( size_t j = 0; j < m.v.size(); ++j ) vp_assert( pn.get_key( j ) == m.v[ j ].first && pn.get_child( j ).get_value() == m.v[ j ].second && &pn[ j ] == &pn.get_child( j ), "children can be reached by index" );
	for ( const char* k : K ) {
		int f = m.find( k ); string key = k;
		vp_assert( pn.has_key( key ) == ( f >= 0 ), "a key is found exactly when a child has it" );
		vp_assert( pn.has_value( key ) == ( f >= 0 && !m.v[ size_t( f ) ].second.empty() ), "a child has a value exactly when it was given one" );
		const prop_node* p = pn.try_get_child( key ); vp_assert( ( p != nullptr ) == ( f >= 0 ), "trying a key gives a child exactly when there is one" );
		vp_assert( pn.get< string >( key, "dflt" ) == ( f >= 0 ? m.v[ size_t( f ) ].second : string( "dflt" ) ), "a missing key gives the default" );
		if ( f >= 0 ) vp_assert( p == &pn[ size_t( f ) ] && &pn.get_child( key ) == p && &pn[ key ] == p && pn.get< string >( key ) == m.v[ size_t( f ) ].second && &pn.try_get_child( key, empty_prop_node() ) == p, "a key leads to its first child" );
		else { vp_assert( vp_throws( [&] { pn.get_child( key ); } ) && vp_throws( [&] { pn.get< string >( key ); } ) && vp_throws( [&] { pn[ key ]; } ), "a missing key without default is an error" ); vp_assert( &pn.try_get_child( key, empty_prop_node() ) == &empty_prop_node(), "a missing key gives the default child" ); }
	}
	vp_assert( vp_throws( [&] { pn.get_child( index_t( m.v.size() ) ); } ) && vp_throws( [&] { pn.get_key( index_t( m.v.size() ) ); } ), "an index outside the children is an error" );
}
static void step( prop_node& pn, model& m, int op ) {
	const char* k = op == 7 || op == 5 ? "" : K[ vp_choice( "key", 0, 1 ) ]; string key = k; int f = m.find( key );
	switch ( op ) {
	case 0: { string v = vp_string( "value", 1 ); prop_node& r = pn.push_back( key, v ); m.v.push_back( { key, v } ); vp_assert( &r == &pn[ pn.size() - 1 ], "adding gives the new child" ); break; }
	case 1: { string v = vp_string( "value", 1 ); prop_node& r = pn.set( key, v ); if ( f < 0 ) m.v.push_back( { key, v } ); else m.v[ size_t( f ) ].second = v; vp_assert( &r == &pn, "setting a child gives the node" ); break; }
	case 2: { prop_node& r = pn.get_or_add_child( key ); if ( f < 0 ) m.v.push_back( { key, "" } ); vp_assert( &r == &pn[ size_t( f < 0 ? m.v.size() - 1 : f ) ], "a child is created only when it does not exist" ); break; }
	case 3: { string v = vp_string( "value", 1 ); pn[ key ] = v; if ( f < 0 ) m.v.push_back( { key, v } ); else m.v[ size_t( f ) ].second = v; break; }
	case 4: if ( f >= 0 ) { pn.erase( pn.begin() + f ); m.v.erase( m.v.begin() + f ); } break;
	case 5: pn.clear(); m.v.clear(); break;
	case 6: { prop_node o; o.push_back( "a", string( "x" ) ); o.push_back( "ab", string( "y" ) ); bool w = vp_choice( "overwrite", 0, 1 ) != 0; merge_prop_nodes( pn, o, w );
		for ( auto& e : { std::make_pair( string( "a" ), string( "x" ) ), std::make_pair( string( "ab" ), string( "y" ) ) } ) { int g = m.find( e.first ); if ( g < 0 ) m.v.push_back( e ); else if ( w ) m.v[ size_t( g ) ].second = e.second; } break; }
	case 7: { prop_node o; o.push_back( "b", string( "u" ) ); o.push_back( "ab", string( "w" ) ); const prop_node& c = o; auto it = pn.insert( pn.begin(), c.begin(), c.end() ); vp_assert( it == pn.begin(), "inserting gives the first new child" ); m.v.insert( m.v.begin(), { std::make_pair( string( "b" ), string( "u" ) ), std::make_pair( string( "ab" ), string( "w" ) ) } ); break; }
	case 8: { prop_node& r = pn.set_delimited( key, string( "d" ) ); (void)r; if ( f < 0 ) m.v.push_back( { key, "d" } ); else m.v[ size_t( f ) ].second = "d"; break; }
	}
}
DRIVER( c22_history ) { prop_node pn; model m; for ( int i = 0; i < VP_N( 2, 3 ); ++i ) step( pn, m, vp_choice( "operation", 0, 8 ) ); agree( pn, m ); }
DRIVER( c22_history3 ) { static const int O[] = { 0, 1, 4, 6 }; prop_node pn; model m; for ( int i = 0; i < 3; ++i ) step( pn, m, O[ vp_choice( "operation", 0, 3 ) ] ); agree( pn, m ); }
DRIVER( c22_copy ) {
	prop_node pn; pn.set( "a", vp_string( "v", 1 ) ); pn[ "b" ].set( "c", vp_string( "w", 1 ) ); pn[ "b" ].set_value( string( "q" ) ); string v = pn.get< string >( "a" ), w = pn[ "b" ].get< string >( "c" );
	prop_node c( pn ), d, p( &pn ), n( static_cast< const prop_node* >( nullptr ) ); d.set( "z", 1 ); d = pn; vp_assert( c == pn && d == pn && p == pn && !( c != pn ) && n.empty(), "copies are equal to the original" );
	c[ "b" ].set( "c", string( "changed" ) ); vp_assert( pn[ "b" ].get< string >( "c" ) == w && d[ "b" ].get< string >( "c" ) == w && pn != c, "copies are independent at every depth" );
	prop_node e( std::move( d ) ); vp_assert( e == pn, "moving keeps the tree" ); prop_node g; g = std::move( e ); vp_assert( g == pn && g.get< string >( "a" ) == v, "moving by assignment keeps the tree" );
	pn = *&pn; vp_assert( pn == g, "assigning a tree to itself changes nothing" ); pn.clear(); vp_assert( pn.empty() && pn.size() == 0, "clearing removes value and children" );
}
// a part of the tree merged into the tree
DRIVER( c22_merge_part ) {
	prop_node pn; int n = vp_choice( "children", 1, 4 ); bool w = vp_choice( "overwrite", 0, 1 ) != 0; string v = vp_string( "v", 1 ); prop_node& x = pn.push_back( "x" ); for ( int i = 0; i < n; ++i ) x.push_back( "k" + std::to_string( i ), v ); pn.push_back( "k1", string( "own" ) );
	merge_prop_nodes( pn, pn.get_child( "x" ), w ); vp_assert( pn.size() == size_t( n > 1 ? n + 1 : n + 2 ) && pn.get_child( "x" ).size() == size_t( n ), "merging a part of a tree into it adds its children" );
	for ( int i = 0; i < n; ++i ) vp_assert( pn.get< string >( "k" + std::to_string( i ) ) == ( i == 1 && !w ? string( "own" ) : v ), "with their values" );
	prop_node c( pn ); merge_prop_nodes( pn, pn, w ); vp_assert( pn == c, "merging a tree with itself changes nothing" );
}
DRIVER( c22_equal ) {
	prop_node a, b; int n = vp_choice( "n", 0, 2 ), k = vp_choice( "k", 0, 2 ); string va = vp_any_string( "va", 1 ), vb = vp_any_string( "vb", 1 ); a.set_value( va ); b.set_value( vb ); bool e = va == vb && n == k;
	for ( int i = 0; i < n; ++i ) { string key = vp_string_in( "ka", 1, "xy" ), val = vp_string_in( "ca", 1, "01" ); a.push_back( key, val ); if ( i < k ) { string key2 = vp_string_in( "kb", 1, "xy" ), val2 = vp_string_in( "cb", 1, "01" ); b.push_back( key2, val2 ); e = e && key == key2 && val == val2; } } for ( int i = n; i < k; ++i ) b.push_back( "x", string( "0" ) );
	vp_assert( ( a == b ) == e && ( a != b ) == !e, "trees are equal exactly when values, keys, order and children are" );
}
DRIVER( c22_deep_equal ) { prop_node a, b; a[ "x" ][ "y" ].set_value( vp_string( "a", 1 ) ); b[ "x" ][ "y" ].set_value( vp_string( "b", 1 ) ); vp_assert( ( a == b ) == ( a[ "x" ][ "y" ].get_value() == b[ "x" ][ "y" ].get_value() ), "equality looks at every depth" ); }
DRIVER( c22_delimited ) {
	prop_node pn; string v = vp_string( "v", 1 ), w = vp_string( "w", 1 ); pn.set_delimited( "x.y.z", v ); pn.set_delimited( "x.w", w ); pn.set_delimited( "x/q", w, '/' );
	vp_assert( pn.size() == 1 && pn[ "x" ].size() == 3 && pn[ "x" ][ "y" ].get< string >( "z" ) == v && pn[ "x" ].get< string >( "w" ) == w && pn[ "x" ].get< string >( "q" ) == w, "a delimited key goes one level down at every delimiter" );
	vp_assert( pn.get_delimited< string >( "x.y.z" ) == v && pn.get_delimited< string >( "x/w", '/' ) == w && pn.try_get_child_delimited( "x.y" ) == &pn[ "x" ][ "y" ] && pn.try_get_child_delimited( "x.n.z" ) == nullptr && pn.try_get_child_delimited( "n" ) == nullptr, "a delimited key finds what was set" );
	vp_assert( vp_throws( [&] { pn.get_delimited< string >( "x.n.z" ); } ), "a missing delimited key is an error" ); pn.set_delimited( "x.y.z", w ); vp_assert( pn.get_delimited< string >( "x.y.z" ) == w && pn[ "x" ][ "y" ].size() == 1, "a delimited key replaces what was set" );
}
DRIVER( c22_any ) {
	prop_node pn; bool a = vp_choice( "a", 0, 1 ), b = vp_choice( "b", 0, 1 ); if ( b ) pn.set( "b", string( "B" ) ); if ( a ) pn.set( "a", string( "A" ) );
	vp_assert( pn.get_any< string >( { "a", "b" }, "none" ) == ( a ? "A" : b ? "B" : "none" ), "the first of several keys that exists is used" );
	if ( a || b ) vp_assert( pn.get_any< string >( { "a", "b" } ) == ( a ? "A" : "B" ), "the first of several keys that exists is used" ); else vp_assert( vp_throws( [&] { pn.get_any< string >( { "a", "b" } ); } ), "none of several keys is an error" );
}
DRIVER( c22_typed ) {
	prop_node pn; int i = vp_choice( "i", -12, 12 ); pn.set( "i", i ); vp_assert( pn.get< int >( "i" ) == i && pn.get< long >( "i" ) == i && pn.get< int >( "j", i ) == i && pn.get< double >( "i" ) == i, "numbers survive the tree" );
	pn.set( "i", 7 ); vp_assert( pn.get< int >( "i" ) == 7 && pn.size() == 1, "setting again replaces the value" );
}
DRIVER( c22_typed_more ) {
	prop_node pn; bool b = vp_choice( "b", 0, 1 ) != 0; pn.set( "b", b ); vp_assert( pn.get< bool >( "b" ) == b && pn.get< bool >( "n", b ) == b, "booleans survive the tree" ); pn.set( "s", "text" ); vp_assert( pn.get< string >( "s" ) == "text", "literals survive the tree" );
	prop_node sub; sub.set( "k", 1 ); pn.set( "p", sub ); vp_assert( pn.get< prop_node >( "p" ).get< int >( "k" ) == 1, "a tree can be a child" );
	pn.set_value( 5 ); vp_assert( pn.get< int >() == 5 && pn.has_value() && pn.size() == 3, "a node can have a value and children" ); pn.set( 6 ); vp_assert( pn.get< int >() == 6, "a node can be set" );
}
DRIVER( c22_typed_list ) {
	prop_node pn; std::vector< int > v; int n = vp_choice( "n", 0, 3 ); for ( int k = 0; k < n; ++k ) v.push_back( vp_choice( "e", 0, 2 ) ); pn.set( "v", v ); vp_assert( pn.get< std::vector< int > >( "v" ) == v && pn[ "v" ].size() == v.size(), "lists survive the tree" );
}
DRIVER( c22_accessed_iterate ) {
	prop_node pn; pn.push_back( "a" ).push_back( "b", string( "2" ) ); pn.push_back( "c", string( "3" ) ); pn.clear_accessed_recursively(); const prop_node& c = pn; int k = vp_choice( "how", 0, 4 ), n = 0;
	if ( k == 0 ) { for ( auto& e : c ) n += int( e.first.size() ); } else if ( k == 1 ) { for ( auto& e : pn ) n += int( e.first.size() ); } else if ( k == 2 ) { for ( auto i = c.cbegin(); i != c.cend(); ++i ) ++n; } else if ( k == 3 ) { for ( auto& e : c.select( "a" ) ) n += int( e.first.size() ); for ( auto& e : c.select_pattern( "c*" ) ) n += int( e.first.size() ); } else { for ( index_t i = 0; i < c.size(); ++i ) n += int( c.get_key( i ).size() ); }
	vp_assert( n == 2, "every child is visited" ); vp_assert( pn.is_accessed() && pn.count_unaccessed() == 3, "visiting the children reads the node and not the children" );
}
DRIVER( c22_accessed ) {
	prop_node pn; pn.push_back( "a", string( "1" ) ); pn.push_back( "b" ).push_back( "c", string( "2" ) ); pn.push_back( "d", string( "3" ) ); pn.clear_accessed_recursively(); vp_assert( pn.count_unaccessed() == 5 && !pn.is_accessed(), "nothing has been accessed at first" );
	int k = vp_choice( "use", 0, 4 ); const prop_node& c = pn;
	switch ( k ) { case 0: break; case 1: c.get< string >( "a" ); break; case 2: c[ "b" ].get< string >( "c" ); break; case 3: c.try_get_child( "d" ); break; case 4: c.get< string >( "a", "x" ); c.get< string >( "d" ); break; }
	auto acc = [&]( size_t i ) { return ( pn.begin() + int( i ) )->second.is_accessed(); }; bool ra = pn.is_accessed(); vp_assert( ra == ( k != 0 ), "a node is accessed when one of its children is looked for" );
	bool a = acc( 0 ), b = acc( 1 ), d = acc( 2 ); vp_assert( a == ( k == 1 || k == 4 ) && b == ( k == 2 ) && d == ( k == 3 || k == 4 ), "exactly the children that were used are accessed" );
	size_t n = pn.count_unaccessed(); vp_assert( n == ( k == 0 ? 4u : k == 2 ? 2u : k == 4 ? 2u : 3u ), "unaccessed nodes are counted at every depth" ); pn.clear_accessed_recursively(); vp_assert( pn.count_unaccessed() == 5, "the accessed marks can be cleared" );
}
DRIVER( c22_select ) {
	prop_node pn; int n = vp_choice( "n", 0, 3 ); std::vector< string > want; for ( int i = 0; i < n; ++i ) { string k = vp_choice( "key", 0, 1 ) ? "a" : "b", v = vp_string( "v", 1 ); pn.push_back( k, v ); if ( k == "a" ) want.push_back( v ); }
	size_t i = 0; for ( auto& e : pn.select( "a" ) ) { vp_assert( i < want.size() && e.first == "a" && e.second.get_value() == want[ i ], "selecting a key visits its children in order" ); ++i; } vp_assert( i == want.size(), "selecting a key visits all its children" );
}
// unused settings
struct lines_sink : log::sink { std::vector< string > l; lines_sink() : log::sink( log::trace_level ) {} void send_log_message( log::level, const string& m ) override { l.push_back( m ); } };
DRIVER( c22_unused ) {
	prop_node pn; pn.push_back( "a", string( "1" ) ); auto& b = pn.push_back( "b" ); b.push_back( "c", string( "2" ) ); b.push_back( "d", string( "3" ) ); pn.clear_accessed_recursively(); bool ua = vp_choice( "a", 0, 1 ) != 0, ub = vp_choice( "b", 0, 1 ) != 0, uc = vp_choice( "c", 0, 1 ) != 0; const prop_node& k = pn;
	if ( ua ) k.get< string >( "a" ); if ( ub ) { k.try_get_child( "b" ); if ( uc ) k[ "b" ].get< string >( "c" ); }
	lines_sink s; log_unaccessed( pn, log::info_level ); std::vector< string > want; if ( !ua ) want.push_back( "a = 1 *" ); want.push_back( ub ? "b" : "b *" ); if ( !( ub && uc ) ) want.push_back( "  c = 2 *" ); want.push_back( "  d = 3 *" );
	vp_assert( s.l == want, "the report names exactly the nodes that were not used" );
}
// a copy is a new tree that has not been read, whatever was read of the original
DRIVER( c22_copy_unread ) {
	prop_node a; a.push_back( "x", string( "1" ) ).push_back( "y", string( "2" ) ); a.push_back( "z", string( "3" ) ); a.clear_accessed_recursively(); const prop_node& c = a; int r = vp_choice( "read", 0, 2 ); if ( r > 0 ) c[ "x" ].get< string >( "y" ); if ( r > 1 ) { c.get< string >( "z" ); c.get_value(); } size_t left = a.count_unaccessed();
	prop_node b( c ), p( &c ), o, q; o.push_back( "k", c ); q = c; vp_assert( b.count_unaccessed() == 4 && p.count_unaccessed() == 4 && o.count_unaccessed() == 5, "nothing of a copy has been read" ); vp_assert( q.count_unaccessed() >= 3 && a.count_unaccessed() == left, "copying reads nothing" );
	const prop_node& cb = b; cb[ "x" ].get< string >( "y" ); vp_assert( b.count_unaccessed() == 1 && a.count_unaccessed() == left && p.count_unaccessed() == 4, "reading a copy does not read the original" );
}
// marks are cleared at every depth, whatever was read before
DRIVER( c22_clear_marks ) {
	prop_node a; a.push_back( "x" ).push_back( "y" ).push_back( "z", string( "1" ) ); const prop_node& x = a.begin()->second; const prop_node& y = x.begin()->second; const prop_node& z = y.begin()->second; a.clear_accessed_recursively(); vp_assert( a.count_unaccessed() == 4, "all marks are cleared" );
	bool ra = vp_choice( "read root", 0, 1 ), rx = vp_choice( "read x", 0, 1 ), ry = vp_choice( "read y", 0, 1 ), rz = vp_choice( "read z", 0, 1 ); if ( ra ) a.get_value(); if ( rx ) x.get_value(); if ( ry ) y.get_value(); if ( rz ) z.get_value();
	vp_assert( a.is_accessed() == ra && x.is_accessed() == rx && y.is_accessed() == ry && z.is_accessed() == rz, "reading a value marks that node only" ); vp_assert( a.count_unaccessed() == size_t( 4 - ra - rx - ry - rz ), "unread nodes below read ones and above them are counted" ); x.count_unaccessed(); a.has_value(); a.size(); a.empty(); vp_assert( a.is_accessed() == ra && x.is_accessed() == rx, "asking for size or marks reads nothing" ); a.clear_accessed_recursively(); vp_assert( a.count_unaccessed() == 4, "all marks are cleared again" );
}
// nodes that have children but no value, or neither
DRIVER( c22_values ) {
	prop_node pn; pn.push_back( "group" ).push_back( "k", string( "v" ) ); pn.push_back( "none" ); pn.push_back( "both", string( "w" ) ).push_back( "k", string( "v" ) ); vp_assert( !pn.has_value( "group" ) && !pn.has_value( "none" ) && pn.has_value( "both" ) && !pn.has_value() && !pn.has_value( "missing" ), "only a node with a value has one" ); vp_assert( !pn[ "group" ].empty() && pn[ "none" ].empty() && !pn[ "both" ].empty() && !pn.empty(), "a node with children or value is not empty" );
	pn.set( "a", string() ); pn.set( "b", string( "B" ) ); vp_assert( pn.get_any< string >( { "a", "b" }, "none" ) == "" && pn.get_any< string >( { "missing", "a", "b" } ) == "" && pn.get< string >( "a", "dflt" ) == "", "a child without value is not missing" ); vp_assert( pn.get_any< string >( {}, "none" ) == "none", "no keys give the default" );
	pn[ "both" ].set_value( string() ); vp_assert( !pn.has_value( "both" ) && pn[ "both" ].size() == 1 && pn[ "both" ].get< string >( "k" ) == "v", "a value can be taken away" ); pn.set( "both", 5 ); vp_assert( pn.get< int >( "both" ) == 5 && pn[ "both" ].size() == 0, "a child that is set anew has its old children no more" );
}
// merging replaces whole children or leaves them alone
DRIVER( c22_merge_repeated ) {
	prop_node a, b; bool w = vp_choice( "overwrite", 0, 1 ) != 0; int k = vp_choice( "before", 0, 2 ); if ( k == 1 ) a.push_back( "p", string( "0" ) ); if ( k == 2 ) a.push_back( "q", string( "0" ) ); b.push_back( "q", string( "1" ) ); b.push_back( "r", string( "2" ) ); b.push_back( "q", string( "3" ) ); merge_prop_nodes( a, b, w );
	vp_assert( a.size() == size_t( k == 1 ? 3 : 2 ) && a.get< string >( "r" ) == "2", "a key that comes twice is merged into one child" ); vp_assert( a.get< string >( "q" ) == ( w ? "3" : k == 2 ? "0" : "1" ), "the first stays unless later ones replace it" );
}
DRIVER( c22_merge_children ) {
	prop_node a, b; bool w = vp_choice( "overwrite", 0, 1 ) != 0; a.push_back( "x", string( "1" ) ).push_back( "old", string( "2" ) ); a.push_back( "y", string( "3" ) ); b.push_back( "z", string( "4" ) ).push_back( "n", string( "5" ) ); b.push_back( "x", string( "6" ) ).push_back( "new", string( "7" ) ); prop_node b0( b ), a0( a ); merge_prop_nodes( a, b, w );
	vp_assert( b == b0, "merging leaves the other tree alone" ); vp_assert( a.size() == 3 && a.get_key( 0 ) == "x" && a.get_key( 1 ) == "y" && a.get_key( 2 ) == "z" && a[ "y" ] == a0[ "y" ] && a[ "z" ] == b[ "z" ], "new children are added whole, at the end" ); vp_assert( a[ "x" ] == ( w ? b : a0 )[ "x" ], "a child in both trees is replaced whole or left alone" );
}
// lists and nested lists: items are named in order
DRIVER( c22_items ) {
	std::vector< string > v; int n = vp_choice( "n", 0, 12 ); for ( int i = 0; i < n; ++i ) v.push_back( vp_string( "e", 1 ) ); prop_node pn = make_prop_node( v ); vp_assert( pn.size() == v.size() && pn.get< std::vector< string > >() == v, "a list has its items in order" ); for ( int i = 0; i < n; ++i ) vp_assert( pn.get_key( size_t( i ) ) == "item" + std::to_string( i ) && pn.get< string >( "item" + std::to_string( i ) ) == v[ size_t( i ) ], "items are named by their number" );
	std::vector< std::vector< int > > m = { { 1, 2 }, {}, { 3 } }; pn.set( "m", m ); vp_assert( pn.get< std::vector< std::vector< int > > >( "m" ) == m, "lists of lists survive the tree" );
}
DRIVER( c22_delimited_other ) { prop_node pn; char d = vp_choice( "delimiter", 0, 2 ) == 0 ? '/' : vp_choice( "second", 0, 1 ) ? ':' : '.'; string k = string( "a" ) + d + "b" + d + "c" + d + "e.f"; if ( d == '.' ) k = "a.b.c.e"; prop_node& r = pn.set_delimited( k, 5, d ); vp_assert( pn.get_delimited< int >( k, d ) == 5 && pn.size() == 1 && pn[ "a" ].size() == 1 && pn[ "a" ][ "b" ][ "c" ].get< int >( d == '.' ? "e" : "e.f" ) == 5 && &r == &pn[ "a" ][ "b" ][ "c" ], "another delimiter is used at every level" ); vp_assert( pn.try_get_child_delimited( k, d ) == &pn[ "a" ][ "b" ][ "c" ][ index_t( 0 ) ], "also to find the child" ); }
DRIVER( c22_select_pattern ) {
	prop_node pn; static const char* K2[] = { "ab", "b", "abc", "" }; std::vector< int > idx; int n = vp_choice( "n", 0, 3 ); for ( int i = 0; i < n; ++i ) { int k = vp_choice( "key", 0, 3 ); pn.push_back( K2[ k ], i ); if ( k == 0 || k == 2 ) idx.push_back( i ); }
	const prop_node& c = pn; std::vector< int > got; for ( auto& e : c.select_pattern( "a*" ) ) got.push_back( e.second.get< int >() ); vp_assert( got == idx, "selecting a pattern visits exactly the children that match, in order" ); auto s = c.select( "b" ); std::vector< int > b; for ( auto it = s.begin(); it != s.end(); it++ ) b.push_back( it->second.get< int >() ); size_t nb = 0; for ( auto& e : c ) nb += e.first == "b"; vp_assert( b.size() == nb, "a selection can be walked with either increment" );
}
// ---- larger sizes
DRIVER( c22_size ) {
	int n = vp_size_to( "children", 40, 300 ); prop_node pn; for ( int i = 0; i < n; ++i ) pn.push_back( "k" + std::to_string( i ), i ); string v = vp_string( "v", 1 ); int k = vp_choice( "which", 0, 2 ); k = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; pn.set( "k" + std::to_string( k ), v ); const prop_node& c = pn; vp_assert( c.size() == size_t( n ), "setting one of many adds nothing" );
	bool ok = true; for ( int i = 0; i < n; ++i ) ok = ok && c.get_key( size_t( i ) ) == "k" + std::to_string( i ) && c.get< string >( "k" + std::to_string( i ) ) == ( i == k ? v : std::to_string( i ) ); vp_assert( ok, "each of many children keeps its key, place and value" ); prop_node d( pn ); vp_assert( d == pn && !c.has_key( "k" + std::to_string( n ) ), "a copy of many children is equal" ); d.set( "k" + std::to_string( n - 1 ), string( "other" ) ); vp_assert( d != pn, "the last of many children counts" );
	prop_node m; merge_prop_nodes( m, pn, false ); vp_assert( m.size() == pn.size() && m.get< string >( "k" + std::to_string( n - 1 ) ) == c.get< string >( "k" + std::to_string( n - 1 ) ), "merging takes all children" ); pn.clear_accessed_recursively(); vp_assert( pn.count_unaccessed() == size_t( n ) + 1, "all children are counted" );
}
DRIVER( c22_size_deep ) {
	int n = vp_size_to( "depth", 36, 300 ); prop_node pn; prop_node* p = &pn; string path; for ( int i = 0; i < n; ++i ) { p = &p->push_back( "x" ); path += i ? ".x" : "x"; } p->set_value( string( "deep" ) ); vp_assert( pn.get_delimited< string >( path ) == "deep", "a delimited key of any depth leads to its value" ); prop_node c( pn ); vp_assert( c == pn, "a deep copy is equal" ); c.set_delimited( path, string( "z" ) ); vp_assert( c != pn && pn.get_delimited< string >( path ) == "deep" && c.get_delimited< string >( path ) == "z", "a deep copy is independent" ); pn.clear_accessed_recursively(); vp_assert( pn.count_unaccessed() == size_t( n ) + 1, "nodes are counted at any depth" );
}
DRIVER( c22_size_value ) { int n = vp_size_to( "length", 300, 1100 ); string v = vp_long_text( "c", n, n / 2, "a \"{" ), k = vp_long_text( "k", n, n - 1, "ab" ); prop_node pn; pn.set( k, v ); vp_assert( pn.get< string >( k ) == v && !pn.has_key( k.substr( 1 ) ) && pn.size() == 1, "long keys and values" ); std::vector< int > l; for ( int i = 0; i < n; ++i ) l.push_back( i ); pn.set( "l", l ); vp_assert( pn.get< std::vector< int > >( "l" ) == l, "long lists survive the tree" ); }

// written to a stream, every node has its line: indented by depth, values in one column
static size_t width( const prop_node& pn, size_t depth ) { size_t w = 0; for ( auto& e : pn ) { size_t k = 2 * depth + e.first.size(), c = width( e.second, depth + 1 ); if ( k > w ) w = k; if ( c > w ) w = c; } return w; }
static void written( const prop_node& pn, size_t depth, size_t w, string& s ) { for ( auto& e : pn ) { string l = string( 2 * depth, ' ' ) + e.first; while ( l.size() < w ) l += ' '; s += l; if ( e.second.has_value() || e.second.size() == 0 ) s += " = " + e.second.get_value(); s += "\n"; written( e.second, depth + 1, w, s ); } }
DRIVER( c22_assign_own ) {
	prop_node pn; string v = vp_any_string( "value", 1 ), w = vp_string( "value", 1 ); int before = vp_choice( "before", 0, 2 ), n = vp_choice( "children", 0, 2 ), after = vp_choice( "after", 0, 1 ); pn.set_value( w ); for ( int i = 0; i < before; ++i ) pn.push_back( "x", i ); { auto& r = pn.push_back( "root", v ); for ( int i = 0; i < n; ++i ) r.push_back( "k" + std::to_string( i ), w )[ "deep" ] = i; } for ( int i = 0; i < after; ++i ) pn.push_back( "y", i );
	prop_node copy( pn.get_child( "root" ) ); const prop_node& c = pn; int how = vp_choice( "how", 0, 3 ); if ( how == 0 ) pn = c.get_child( "root" ); else if ( how == 1 ) pn = std::move( pn.get_child( "root" ) ); else if ( how == 2 ) pn.set( c.get_child( "root" ) ); else { prop_node& s = pn; pn = s; copy = prop_node( pn ); }
	vp_assert( pn == copy && !( pn != copy ), "a node can be replaced by one of its own children" ); if ( how < 3 ) vp_assert( pn.size() == size_t( n ) && pn.get_value() == v && !pn.has_key( "root" ) && ( n == 0 || ( pn[ index_t( 0 ) ].get_value() == w && pn[ index_t( n - 1 ) ].get< int >( "deep" ) == n - 1 ) ), "and then has its value and children" ); else vp_assert( pn.size() == size_t( before + 1 + after ) && pn.get_value() == w, "assigning a node to itself changes nothing" );
}
DRIVER( c22_assign_unread ) { prop_node a, b; a[ "x" ] = 1; a[ "y" ] = 2; b[ "x" ] = 3; b[ "z" ] = 4; a.clear_accessed_recursively(); b.clear_accessed_recursively(); const prop_node& ca = a; bool rx = vp_choice( "read", 0, 1 ); if ( rx ) ca.get< int >( "x" ); const prop_node& cb = b; a = cb; size_t u = a.count_unaccessed() - ( a.is_accessed() ? 0 : 1 ); vp_assert( u == 2, "the children of an assigned tree have not been read" ); vp_assert( ca.get< int >( "z" ) == 4 && a.count_unaccessed() == 1, "until they are" ); }
DRIVER( c22_print ) {
	prop_node pn; int shape = vp_choice( "shape", 0, 5 ); string k = vp_string_in( "key", vp_choice( "length", 1, 7 ), "ab" ), v = vp_any_string_in( "value", 3, "xy z" );
	if ( shape > 0 ) pn.push_back( k, v ); if ( shape > 1 ) { auto& c = pn.push_back( "sub" ); c.push_back( "x", v ); if ( shape > 2 ) { auto& d = c.push_back( "deeper", string( "own" ) ); if ( shape > 3 ) d.push_back( k, v ); } } if ( shape > 4 ) { pn.push_back( "last", 7 ); pn.push_back( "none" ); }
	string e; written( pn, 0, width( pn, 0 ), e ); std::ostringstream o; o << pn; vp_assert( o.str() == e, "a tree is written with one line for each node, indented by depth, and values in one column" );
}

DRIVER( c22_print_deep ) { int n = vp_size_to( "depth", 36, 130 ); prop_node pn; prop_node* p = &pn; for ( int i = 0; i < n; ++i ) { p = &p->push_back( i % 3 ? "k" : "longer", i ); } string e; written( pn, 0, width( pn, 0 ), e ); std::ostringstream o; o << pn; vp_assert( o.str() == e, "a tree of any depth is written with its indentation" ); }
// the macros that read and write the members of an object
struct settings_object {
	int count_ = -1; string m_label_; bool on = false; double rate_ = 0; std::vector< int > list_;
	void init( const prop_node& pn ) { INIT_PROP( pn, count_, 7 ); INIT_PROP( pn, m_label_, "none" ); INIT_PROP_NAMED( pn, on, "switch", true ); INIT_PROP( pn, rate_, 2 ); }
	void need( const prop_node& pn ) { INIT_PROP_REQUIRED( pn, count_ ); INIT_PROP_NAMED_REQUIRED( pn, m_label_, "title" ); }
	void save( prop_node& pn ) const { SET_PROP( pn, count_ ); SET_PROP( pn, m_label_ ); SET_PROP_NAMED( pn, on, "switch" ); }
};
DRIVER( c22_macros ) {
	bool c = vp_choice( "count", 0, 1 ), l = vp_choice( "label", 0, 1 ), o = vp_choice( "switch", 0, 1 ), d = vp_choice( "rate", 0, 1 ), t = vp_choice( "title", 0, 1 ); int v = vp_int( "v", 0, 9 ); prop_node pn; if ( c ) pn.set( "count", v ); if ( l ) pn.set( "label", string( "text" ) ); if ( o ) pn.set( "switch", false ); if ( d ) pn.set( "rate", 0.5 ); if ( t ) pn.set( "title", string( "T" ) );
	settings_object s; s.init( pn ); vp_assert( s.count_ == ( c ? v : 7 ) && s.m_label_ == ( l ? "text" : "none" ) && s.on == !o && s.rate_ == ( d ? 0.5 : 2.0 ), "members are read from the child with their name, or get the default" );
	settings_object q; if ( c && t ) { q.need( pn ); vp_assert( q.count_ == v && q.m_label_ == "T", "required members are read" ); } else vp_assert( vp_throws( [&] { q.need( pn ); } ), "a missing required member is an error" );
	prop_node w; s.save( w ); vp_assert( w.size() == 3 && w.get< int >( "count" ) == s.count_ && w.get< string >( "label" ) == s.m_label_ && w.get< bool >( "switch" ) == s.on, "members are written under their names" ); settings_object r; r.init( w ); vp_assert( r.count_ == s.count_ && r.m_label_ == s.m_label_ && r.on == s.on, "and read back" );
}
