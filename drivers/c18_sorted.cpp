// sorted_vector stays sorted, flag sets change only the flags they are told to
#include "vp.h"
#include "flut/sorted_vector.hpp"
#include "flut/flag_set.hpp"
using namespace flut;
DRIVER( c18_sorted ) {
	sorted_vector< int > s; int v[ 4 ]; int n = vp_choice( "count", 0, VP_N( 3, 4 ) );
	for ( int i = 0; i < n; ++i ) { v[ i ] = vp_int( "value", -50, 50 ); auto it = s.insert( v[ i ] ); vp_assert( *it == v[ i ], "inserting returns the position of the new element" ); }
	vp_assert( s.size() == size_t( n ) && s.empty() == ( n == 0 ), "every element is kept, duplicates included" );
	for ( auto it = s.begin(); it != s.end(); ++it ) if ( it + 1 != s.end() ) vp_assert( *it <= *( it + 1 ), "elements are in ascending order" );
	const auto& c = s; int q = vp_int( "asked", -50, 50 ); bool in = false; for ( int i = 0; i < n; ++i ) if ( v[ i ] == q ) in = true;
	auto it = s.find( q ); auto ct = c.find( q );
	vp_assert( ( it != s.end() ) == in && ( ct != c.end() ) == in, "an element is found exactly when it was inserted" );
	if ( in ) vp_assert( *it == q && *ct == q, "the position found holds the element" );
	if ( n ) { vp_assert( c.front() == *c.cbegin() && c.back() == *( c.cend() - 1 ), "front is the smallest and back the largest element" ); s.erase( s.begin() ); vp_assert( s.size() == size_t( n - 1 ), "an erased element is gone" ); }
}
DRIVER( c18_multiset ) {
	sorted_vector< int > s; int v[ 3 ]; for ( int i = 0; i < 3; ++i ) { v[ i ] = vp_int( "value", 0, 3 ); s.insert( v[ i ] ); }
	for ( int x = 0; x < 4; ++x ) { int a = 0, b = 0; for ( int i = 0; i < 3; ++i ) if ( v[ i ] == x ) ++a; for ( int e : s ) if ( e == x ) ++b; vp_assert( a == b, "every value occurs as often as it was inserted" ); }
}
enum opt { o0, o1, o2, o3, o31 = 31 };
typedef flag_set< opt > flags;
static const opt ALL[] = { o0, o1, o2, o3, o31 };
static void same( const flags& f, const bool* r ) { bool any = false; for ( int i = 0; i < 5; ++i ) { vp_assert( f.get( ALL[ i ] ) == r[ i ] && f( ALL[ i ] ) == r[ i ], "a flag has the value it was last given, others are unaffected" ); any = any || r[ i ]; } vp_assert( f.any() == any, "any is true when some flag is set" ); vp_assert( f.get< o2 >() == r[ 2 ] && f.get< o31 >() == r[ 4 ], "the fixed form reads the same flag" ); }
DRIVER( c18_flags ) {
	flags f; bool r[ 5 ] = { false, false, false, false, false }; same( f, r );
	for ( int s = 0; s < VP_N( 2, 3 ); ++s ) {
		int i = vp_choice( "flag", 0, 4 );
		switch ( vp_choice( "operation", 0, 5 ) ) {
		case 0: f.set( ALL[ i ] ); r[ i ] = true; break;
		case 1: { bool v = vp_choice( "value", 0, 1 ) != 0; f.set( ALL[ i ], v ); r[ i ] = v; break; }
		case 2: f.set( { ALL[ i ], o1 } ); r[ i ] = r[ 1 ] = true; break;
		case 3: f.clear( { ALL[ i ], o31 } ); r[ i ] = r[ 4 ] = false; break;
		case 4: f.set< o2 >(); f.clear< o1 >(); f.set< o31 >( i > 2 ); r[ 2 ] = true; r[ 1 ] = false; r[ 4 ] = i > 2; break;
		case 5: f.clear(); for ( bool& x : r ) x = false; break;
		}
		same( f, r );
	}
	flags g( f ), h; h = f; same( g, r ); same( h, r ); g.set( o0, !r[ 0 ] ); same( f, r );
}
DRIVER( c18_flags_list ) { flags f = { o1, o31 }; bool r[ 5 ] = { false, true, false, false, true }; same( f, r ); f.set( o1 ).set( o2, true ).clear( { o1 } ); r[ 1 ] = false; r[ 2 ] = true; same( f, r ); }
enum class wide { a = 0, b = 40, c = 63 };
DRIVER( c18_flags_wide ) { flag_set< wide, unsigned long long > f; f.set( wide::b ); vp_assert( f.get( wide::b ) && !f.get( wide::a ) && !f.get( wide::c ) && f.any(), "a wide set holds flags above 32" ); f.set( wide::c, true ); f.set( wide::b, false ); vp_assert( !f.get( wide::b ) && f.get( wide::c ), "a wide set changes only the flag given" ); }
// ---- larger sizes
DRIVER( c18_size ) { int n = vp_size_to( "size", 140, 1100 ), o = vp_choice( "order", 0, 2 ); sorted_vector< int > s; for ( int i = 0; i < n; ++i ) s.insert( o == 0 ? i : o == 1 ? n - i : ( i * 37 ) % 101 ); vp_assert( s.size() == size_t( n ), "every element is kept" ); bool ok = true; for ( auto it = s.begin(); it + 1 != s.end(); ++it ) ok = ok && *it <= *( it + 1 ); vp_assert( ok, "elements are in ascending order" ); bool all = true; for ( int i = 0; i < n; ++i ) all = all && s.find( o == 0 ? i : o == 1 ? n - i : ( i * 37 ) % 101 ) != s.end(); vp_assert( all && s.find( -1 ) == s.end() && s.find( -2 ) == s.end(), "exactly the inserted elements are found" ); }
