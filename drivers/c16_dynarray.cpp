// dynarray owns its elements
#include "vp.h"
#include "flut/dynarray.hpp"
#include "flut/memory_tools.hpp"
using namespace flut;
static dynarray< int > make( const char* l, int n ) { dynarray< int > a( ( size_t( n ) ) ); for ( int i = 0; i < n; ++i ) a[ size_t( i ) ] = vp_int( l, -100, 100 ); return a; }
static void same( const dynarray< int >& a, const std::vector< int >& r ) {
	vp_assert( a.size() == r.size(), "the size is the number of elements" );
	for ( size_t i = 0; i < r.size(); ++i ) vp_assert( a[ i ] == r[ i ] && a.at( i ) == r[ i ] && a.data()[ i ] == r[ i ], "elements keep their values" );
	size_t k = 0; for ( auto it = a.begin(); it != a.end(); ++it ) ++k; vp_assert( k == r.size() && a.cend() - a.cbegin() == long( r.size() ), "iteration visits every element" );
	vp_assert( vp_throws( [&] { a.at( r.size() ); } ) && vp_throws( [&] { a.at( size_t( -1 ) ); } ), "an index outside the array is an error" );
}
static std::vector< int > vec( const dynarray< int >& a ) { return std::vector< int >( a.begin(), a.end() ); }
DRIVER( c16_copy ) {
	dynarray< int > a = make( "a", vp_choice( "size a", 0, 3 ) ), b = make( "b", vp_choice( "size b", 0, 3 ) ); auto ra = vec( a ), rb = vec( b );
	switch ( vp_choice( "operation", 0, 6 ) ) {
	case 0: { dynarray< int > c( a ); same( c, ra ); for ( auto& x : c ) x = 1000; same( a, ra ); break; }
	case 1: b = a; same( b, ra ); for ( auto& x : b ) x = 1000; same( a, ra ); break;
	case 2: { dynarray< int > c( std::move( a ) ); same( c, ra ); vp_assert( a.size() == 0 && a.begin() == a.end(), "a moved-from array is empty" ); a = b; same( a, rb ); break; }
	case 3: b = std::move( a ); same( b, ra ); a = b; same( a, ra ); break;
	case 4: { dynarray< int >& s = a; a = s; same( a, ra ); break; }
	case 5: { dynarray< int >& s = a; a = std::move( s ); same( a, ra ); break; }
	case 6: std::swap( a, b ); same( a, rb ); same( b, ra ); break;
	}
}
DRIVER( c16_fill ) { size_t n = size_t( vp_choice( "size", 0, 4 ) ); int v = vp_int( "v", -9, 9 ), w = vp_int( "w", -9, 9 ); dynarray< int > a( n, v ); same( a, std::vector< int >( n, v ) ); a.assign( w ); same( a, std::vector< int >( n, w ) ); if ( n ) { a.at( n - 1 ) = 77; a.data()[ 0 ] += 1; vp_assert( a[ n - 1 ] == ( n == 1 ? 78 : 77 ), "elements can be written" ); } }
DRIVER( c16_empty ) { dynarray< int > a; vp_assert( a.size() == 0 && a.begin() == a.end() && vp_throws( [&] { a.at( 0 ); } ), "a new array is empty" ); dynarray< int > b( a ); vp_assert( b.size() == 0, "a copy of an empty array is empty" ); a = dynarray< int >( 2, 5 ); vp_assert( a.size() == 2 && a[ 1 ] == 5, "an array can be assigned later" ); }
DRIVER( c16_objects ) { { dynarray< std::string > a( 2, "some text that is allocated" ); dynarray< std::string > b( a ); b[ 0 ] = "x"; a = b; vp_assert( a[ 0 ] == "x" && a[ 1 ] == "some text that is allocated", "elements are copied as objects" ); dynarray< std::string > c( std::move( b ) ); vp_assert( c[ 0 ] == "x" && b.size() == 0, "elements are moved as objects" ); } vp_assert( vp_live_heap() == 0, "all elements are released" ); }
DRIVER( c16_release ) { { dynarray< int > a = make( "a", 3 ), b( a ), c; c = b; b = std::move( a ); c = c; } vp_assert( vp_live_heap() == 0, "every array is released once" ); }
struct node { int v; explicit node( int x ) : v( x ) {} };
DRIVER( c16_clone ) {
	int v = vp_int( "v", -100, 100 ); std::unique_ptr< node > p( new node( v ) ), q = flut::clone( p ); vp_assert( q && q.get() != p.get() && q->v == v, "a clone is a separate object with the same value" ); q->v = 7777; vp_assert( p->v == v, "changing the clone leaves the original" );
	std::unique_ptr< node > e; vp_assert( !flut::clone( e ), "the clone of nothing is nothing" );
	std::vector< std::unique_ptr< node > > s; int n = vp_choice( "count", 0, 2 ); for ( int i = 0; i < n; ++i ) s.emplace_back( i == 1 ? nullptr : new node( i ) );
	auto t = flut::clone( s ); vp_assert( t.size() == s.size(), "a cloned list has as many elements" ); for ( size_t i = 0; i < s.size(); ++i ) vp_assert( bool( t[ i ] ) == bool( s[ i ] ) && ( !t[ i ] || ( t[ i ].get() != s[ i ].get() && t[ i ]->v == s[ i ]->v ) ), "every element is cloned in place" );
}
// ---- larger sizes
DRIVER( c16_size ) { { int n = vp_size_to( "size", 300, 2100 ); dynarray< int > a( ( size_t( n ) ) ); std::vector< int > r; for ( int i = 0; i < n; ++i ) { int v = i == n / 2 ? vp_int( "v", -9, 9 ) : i; a[ size_t( i ) ] = v; r.push_back( v ); } dynarray< int > b( a ), c; c = a; same( b, r ); same( c, r ); dynarray< int > d( std::move( b ) ); same( d, r ); d.assign( 3 ); same( a, r ); same( d, std::vector< int >( size_t( n ), 3 ) ); std::swap( a, d ); same( d, r ); } vp_assert( vp_live_heap() == 0, "all memory is released" ); }
