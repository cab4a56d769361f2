// recorded debug values and tabulated functions
#include "vp.h"
#include <sstream>
#include "flut/system/debug_storage.hpp"
#include "flut/debug_tools.hpp"
using namespace flut;
static void finish() { void ( *f )( void* ); void* a; while ( vp_atexit_pop( &f, &a ) ) f( a ); }
static string content( const char* p ) { string s; vp_fs_get( p, s ); return s; }
static std::vector< std::vector< string > > cells( const string& s ) { std::vector< std::vector< string > > r; std::vector< string > l; string c; for ( char x : s ) { if ( x == '\t' || x == '\n' ) { l.push_back( c ); c.clear(); if ( x == '\n' ) { r.push_back( l ); l.clear(); } } else c += x; } if ( !c.empty() || !l.empty() ) { l.push_back( c ); r.push_back( l ); } return r; }
DRIVER( c34_written ) {
	set_debug_output( "out.txt" ); static const char* names[] = { "a", "b", "c" }; int n = vp_choice( "writes", 0, VP_N( 4, 5 ) );
	std::vector< string > head; std::vector< std::vector< int > > rows; std::vector< std::vector< bool > > has; // expected
	for ( int i = 0; i < n; ++i ) {
		int k = vp_choice( "label", 0, 2 ); size_t c = 0; while ( c < head.size() && head[ c ] != names[ k ] ) ++c; 
		if ( c == head.size() ) { head.push_back( names[ k ] ); for ( auto& h : has ) h.push_back( false ); for ( auto& r : rows ) r.push_back( 0 ); }
		if ( rows.empty() || has.back()[ c ] ) { rows.push_back( std::vector< int >( head.size(), 0 ) ); has.push_back( std::vector< bool >( head.size(), false ) ); }
		rows.back()[ c ] = i + 1; has.back()[ c ] = true; write_debug( names[ k ], float( i + 1 ) );
	}
	vp_assert( vp_fs_count() == 0, "nothing is written before the end" ); finish();
	if ( n == 0 ) vp_assert( vp_fs_count() == 0, "nothing recorded, nothing written" );
	else {
		vp_assert( vp_fs_count() == 1 && vp_fs_exists( "out.txt" ), "the recorded values are written to the chosen file" );
		auto t = cells( content( "out.txt" ) ); vp_assert( t.size() == rows.size() + 1 && t[ 0 ] == head, "one column for each label, in the order of their first use, one line for each step" );
		for ( size_t r = 0; r < rows.size(); ++r ) { vp_assert( t[ r + 1 ].size() == head.size(), "every line has a value for each label" ); for ( size_t c = 0; c < head.size(); ++c ) if ( has[ r ][ c ] ) vp_assert( t[ r + 1 ][ c ] == string( 1, char( '0' + rows[ r ][ c ] ) ), "every value is in the column of its label, a label that comes again starts a new line" ); else vp_assert( t[ r + 1 ][ c ].size() > 2, "a label without value in a line is marked" ); }
	}
}
DRIVER( c34_default ) { write_debug( "x", 2 ); finish(); vp_assert( vp_fs_exists( "debug.txt" ) && vp_fs_count() == 1, "without a choice the values are written to debug.txt" ); }
static double square( double x ) { return x * x; }
static int twice( int x ) { return 2 * x; }
DRIVER( c34_function ) {
	int lo = vp_choice( "lo", -2, 2 ), n = vp_choice( "samples", 0, 5 ), w = vp_choice( "width", 0, 2 ) * std::max( n - 1, 1 ); output_function< double >( "f.txt", lo, lo + w, square, n );
	auto t = cells( content( "f.txt" ) ); vp_assert( int( t.size() ) == n, "as many lines as samples" );
	for ( int i = 0; i < n; ++i ) { int x = n > 1 ? lo + i * w / ( n - 1 ) : lo; std::ostringstream a, b; a << x; b << x * x; vp_assert( t[ i ].size() == 2 && t[ i ][ 0 ] == a.str() && t[ i ][ 1 ] == b.str(), "every line has a sample and its value, from the first to the last of the range" ); }
	output_function< int >( "g.txt", 0, 3, twice, 4 ); vp_assert( content( "g.txt" ) == "0\t0\n1\t2\n2\t4\n3\t6\n", "also for integers" );
}
DRIVER( c34_samples ) { output_function< double >( "f.txt", 0, 1, square ); auto t = cells( content( "f.txt" ) ); vp_assert( t.size() == 101 && t[ 0 ][ 0 ] == "0" && t[ 100 ][ 0 ] == "1" && t[ 50 ][ 0 ] == "0.5" && t[ 50 ][ 1 ] == "0.25", "a hundred and one samples from end to end" ); }
DRIVER( c34_labels ) { // many labels in a step, the first steps not all the same
	int n = vp_choice( "labels", 2, 7 ), first = vp_choice( "first", 1, 7 ); vp_assume( first <= n ); set_debug_output( "o.txt" ); auto name = []( int i ) { return string( 1, char( 'a' + i ) ); }; for ( int i = 0; i < first; ++i ) write_debug( name( i ), float( i ) ); for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < n; ++i ) write_debug( name( i ), float( i + k ) ); finish();
	auto t = cells( content( "o.txt" ) ); vp_assert( t.size() == 4 && t[ 0 ].size() == size_t( n ), "a new line only when a label comes again" ); for ( int i = 0; i < n; ++i ) vp_assert( t[ 0 ][ i ] == name( i ) && ( i < first ? t[ 1 ][ i ] == std::to_string( i ) : t[ 1 ][ i ].size() > 2 ) && t[ 2 ][ i ] == std::to_string( i ) && t[ 3 ][ i ] == std::to_string( i + 1 ), "every label has its value in every step" );
}
static double fraction( double x ) { return x + 0.123456; }
DRIVER( c34_digits ) { output_function< double >( "f.txt", 0, 1, fraction, 2 ); vp_assert( content( "f.txt" ) == "0\t0.123456\n1\t1.12346\n", "values are written with six digits" ); }
// ---- larger sizes
DRIVER( c34_size ) {
	int n = vp_size_to( "size", 70, 1100 ), wide = vp_choice( "wide", 0, 1 ); set_debug_output( "o.txt" ); if ( wide ) for ( int i = 0; i < n; ++i ) write_debug( "k" + std::to_string( i ), float( i ) ); else for ( int i = 0; i < n; ++i ) { write_debug( "a", float( i ) ); write_debug( "b", float( -i ) ); } finish(); auto t = cells( content( "o.txt" ) );
	bool ok = t.size() == size_t( wide ? 2 : n + 1 ); for ( int i = 0; ok && i < n; ++i ) ok = wide ? t[ 0 ].size() == size_t( n ) && t[ 0 ][ size_t( i ) ] == "k" + std::to_string( i ) && t[ 1 ][ size_t( i ) ] == std::to_string( i ) : t[ size_t( i + 1 ) ].size() == 2 && t[ size_t( i + 1 ) ][ 0 ] == std::to_string( i ); vp_assert( ok, "any number of labels and steps is written" );
	output_function< int >( "f.txt", 0, n - 1, twice, n ); auto f = cells( content( "f.txt" ) ); vp_assert( f.size() == size_t( n ) && f.back()[ 0 ] == std::to_string( n - 1 ), "any number of samples is written" );
}
