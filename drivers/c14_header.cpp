// labels and indices stay in step
#include "vp.h"
#include "flut/buffer/data_header.hpp"
#include <string>
using namespace flut;
template< typename L > struct ref { std::vector< L > l; std::vector< int > set; };
template< typename L > static void agree( const data_header< L >& h, const ref< L >& r, const L* pool, int n ) {
	vp_assert( h.size() == r.l.size(), "the number of channels is the number of labels added" );
	for ( size_t i = 0; i < r.l.size(); ++i ) if ( r.set[ i ] ) { vp_assert( h[ i ] == r.l[ i ], "an index has the label it was given" ); vp_assert( h.find( r.l[ i ] ) == i, "a label is found at its index" ); }
	for ( int k = 0; k < n; ++k ) { bool in = false; for ( size_t i = 0; i < r.l.size(); ++i ) in = in || ( r.set[ i ] && r.l[ i ] == pool[ k ] ); if ( !in ) vp_assert( h.find( pool[ k ] ) == no_index, "a label that is not in use is not found" ); }
	size_t i = 0; for ( auto& l : h ) { if ( i < r.l.size() && r.set[ i ] ) vp_assert( l == r.l[ i ], "labels are listed in order" ); ++i; } vp_assert( i == r.l.size(), "all labels are listed" );
}
template< typename L > static bool used( const ref< L >& r, const L& l ) { for ( size_t i = 0; i < r.l.size(); ++i ) if ( r.set[ i ] && r.l[ i ] == l ) return true; return false; }
template< typename L > static void history( const L* pool, int n, int steps ) {
	data_header< L > h; ref< L > r;
	for ( int s = 0; s < steps; ++s ) {
		int op = vp_choice( "operation", 0, 3 );
		if ( op == 0 ) { const L& l = pool[ vp_choice( "label", 0, n - 1 ) ]; if ( used( r, l ) ) { vp_assert( vp_throws( [&] { h.add( l ); } ), "a label can only be added once" ); } else { vp_assert( h.add( l ) == r.l.size(), "a new label gets the next index" ); r.l.push_back( l ); r.set.push_back( 1 ); } }
		else if ( op == 1 ) { if ( r.l.empty() ) { vp_assert( vp_throws( [&] { h.set( 0, pool[ 0 ] ); } ), "an index that does not exist cannot be renamed" ); continue; } size_t i = size_t( vp_choice( "index", 0, int( r.l.size() ) - 1 ) ); const L& l = pool[ vp_choice( "label", 0, n - 1 ) ];
			if ( used( r, l ) ) vp_assert( vp_throws( [&] { h.set( i, l ); } ), "a label in use cannot be given to another index" ); else { vp_assert( h.set( i, l ) == i, "renaming keeps the index" ); r.l[ i ] = l; r.set[ i ] = 1; } }
		else if ( op == 2 ) { h.resize( r.l.size() + 1 ); r.l.push_back( L() ); r.set.push_back( 0 ); }
		else { h.clear(); r.l.clear(); r.set.clear(); }
		agree( h, r, pool, n );
	}
}
DRIVER( c14_int ) { const int pool[] = { 3, -5, 0 }; history< int >( pool, 3, VP_N( 3, 4 ) ); }
DRIVER( c14_string ) { const string pool[] = { "", "a longer label that is allocated" }; history< string >( pool, 2, 3 ); }
DRIVER( c14_construct ) {
	data_header< int > a( size_t( 3 ) ); vp_assert( a.size() == 3, "a header has the requested number of channels" );
	data_header< int > b = { 4, 7, 5 }; vp_assert( b.size() == 3 && b.find( 4 ) == 0 && b.find( 7 ) == 1 && b.find( 5 ) == 2 && b[ 1 ] == 7 && b.find( 6 ) == no_index, "a header made from a list has its labels in order" );
	std::vector< int > v = { 9, 1 }; data_header< int > c( v ); vp_assert( c.size() == 2 && c.find( 9 ) == 0 && c.find( 1 ) == 1, "a header made from a vector has its labels in order" );
	data_header< int > d( b ); d.set( 0, 40 ); vp_assert( b.find( 4 ) == 0 && b.find( 40 ) == no_index && d.find( 40 ) == 0 && d.find( 4 ) == no_index, "copies are independent" );
	vp_assert( vp_throws( [] { std::vector< int > w = { 2, 2 }; data_header< int > e( w ); } ), "duplicate labels are refused" );
	vp_assert( vp_throws( [&] { b.resize( 2 ); } ), "a header cannot lose channels by resizing" );
	vp_assert( vp_throws( [&] { b.set( 3, 11 ); } ), "an index that does not exist cannot be renamed" );
}
DRIVER( c14_plain ) { size_t n = size_t( vp_choice( "channels", 0, 3 ) ); data_header< void > h( n ); vp_assert( h.size() == n, "a header without labels has its channels" ); vp_assert( h.add() == n && h.size() == n + 1, "a new channel gets the next index" ); vp_assert( h.get_label( 1 ) == 1, "the label is the index" ); }
// ---- larger sizes
DRIVER( c14_size ) { int n = vp_size_to( "labels", 140, 1100 ); data_header< int > h; for ( int i = 0; i < n; ++i ) vp_assert( h.add( 3 * i + 1 ) == size_t( i ), "labels get consecutive indices" ); int k = vp_choice( "which", 0, 1 ) ? n - 1 : n / 2; h.set( size_t( k ), 2 ); for ( int i = 0; i < n; ++i ) vp_assert( h[ size_t( i ) ] == ( i == k ? 2 : 3 * i + 1 ) && h.find( i == k ? 2 : 3 * i + 1 ) == size_t( i ), "many labels are found at their indices" ); vp_assert( h.find( 3 * k + 1 ) == no_index && h.size() == size_t( n ) && vp_throws( [&] { h.add( 2 ); } ), "a renamed label is gone" ); data_header< int > c( h ); c.add( 0 ); vp_assert( h.find( 0 ) == no_index && c.find( 0 ) == size_t( n ), "copies are independent" ); }
