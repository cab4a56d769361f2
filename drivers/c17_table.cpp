// table and storage: every cell keeps its value while rows, columns, frames and channels are added
#include "vp.h"
#include "flut/table.hpp"
#include "flut/storage.hpp"
#include "flut/string_tools.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include <sstream>
using namespace flut;
static const int LBL[] = { 11, 12, 13 };
DRIVER( c17_table_history ) {
	table< double, int > t; double ref[ 4 ][ 4 ]; size_t R = 0, C = 0; int rl[ 4 ], cl[ 4 ];
	for ( int s = 0; s < VP_N( 4, 5 ); ++s ) {
		int op = vp_choice( "operation", 0, 2 );
		if ( op == 0 ) { if ( R == 3 ) break; double d = vp_real( "default" ); rl[ R ] = LBL[ R ]; vp_assert( t.add_row( rl[ R ], d ) == R, "a new row gets the next number" ); for ( size_t c = 0; c < C; ++c ) ref[ R ][ c ] = d; ++R; }
		else if ( op == 1 ) { if ( C == 3 ) break; double d = vp_real( "default" ); cl[ C ] = LBL[ C ] + 100; vp_assert( t.add_column( cl[ C ], d ) == C, "a new column gets the next number" ); for ( size_t r = 0; r < R; ++r ) ref[ r ][ C ] = d; ++C; }
		else { if ( !R || !C ) break; double d = vp_real( "value" ); t( R - 1, C - 1 ) = d; ref[ R - 1 ][ C - 1 ] = d; }
	}
	const auto& k = t;
	vp_assert( k.row_size() == R && k.column_size() == C, "the table has as many rows and columns as were added" );
	for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) vp_assert( k( r, c ) == ref[ r ][ c ] && t( r, c ) == ref[ r ][ c ], "every cell keeps its value" );
	for ( size_t r = 0; r < R; ++r ) vp_assert( k.row_labels()[ r ] == rl[ r ] && k.row_labels().find( rl[ r ] ) == r && t.get_or_add_row( rl[ r ] ) == r, "rows keep their labels" );
	for ( size_t c = 0; c < C; ++c ) vp_assert( k.col_labels()[ c ] == cl[ c ] && t.get_or_add_column( cl[ c ] ) == c, "columns keep their labels" );
	vp_assert( vp_throws( [&] { k( R, size_t( 0 ) ); } ) && vp_throws( [&] { k( size_t( 0 ), C ); } ) && vp_throws( [&] { t( R, C ); } ), "a cell outside the table is an error" );
	vp_assert( t.row_size() == R && t.column_size() == C, "looking up existing labels adds nothing" );
}
DRIVER( c17_table_resize ) {
	size_t R = size_t( vp_choice( "rows", 0, 2 ) ), C = size_t( vp_choice( "columns", 0, 2 ) ), R2 = size_t( vp_choice( "new rows", 0, 3 ) ), C2 = size_t( vp_choice( "new columns", 0, 3 ) );
	table< double, int > t( R, C ); double ref[ 3 ][ 3 ]; for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) t( r, c ) = ref[ r ][ c ] = vp_real( "cell" );
	double v = vp_real( "fill" );
	if ( R2 < R || C2 < C ) { vp_assert( vp_throws( [&] { t.resize( R2, C2, v ); } ), "a table cannot shrink" ); R2 = R; C2 = C; }
	else t.resize( R2, C2, v );
	vp_assert( t.row_size() == R2 && t.column_size() == C2, "a table has the requested size" );
	for ( size_t r = 0; r < R2; ++r ) for ( size_t c = 0; c < C2; ++c ) vp_assert( t( r, c ) == ( r < R && c < C ? ref[ r ][ c ] : v ), "resizing keeps all cells and fills the new ones" );
}
DRIVER( c17_table_labels ) {
	table< int > t; t( "r1", "c1" ) = 1; t( "r2", "c1" ) = 2; t( "r1", "c2" ) = 3; 
	const auto& k = t; vp_assert( k( "r1", "c1" ) == 1 && k( "r2", "c1" ) == 2 && k( "r1", "c2" ) == 3 && k( "r2", "c2" ) == 0 && k.row_size() == 2 && k.column_size() == 2, "cells are addressed by label and added when missing" );
	vp_assert( vp_throws( [&] { k( "r3", "c1" ); } ) && vp_throws( [&] { k( "r1", "x" ); } ), "a label that does not exist is an error for a constant table" );
	std::ostringstream s; s << t; vp_assert( s.str() == "Row\tc1\tc2\nr1\t1\t3\nr2\t2\t0\n", "a table is printed with its labels" );
}
DRIVER( c17_storage_history ) {
	storage< double, int > t; double ref[ 5 ][ 4 ]; size_t F = 0, C = 0;
	for ( int s = 0; s < VP_N( 4, 5 ); ++s ) {
		int op = vp_choice( "operation", 0, 4 );
		if ( op == 0 ) { double d = vp_real( "default" ); t.add_frame( d ); for ( size_t c = 0; c < C; ++c ) ref[ F ][ c ] = d; ++F; if ( F == 4 ) break; }
		else if ( op == 1 ) { if ( C == 3 ) break; double d = vp_real( "default" ); vp_assert( t.add_channel( LBL[ C ], d ) == C, "a new channel gets the next number" ); for ( size_t f = 0; f < F; ++f ) ref[ f ][ C ] = d; ++C; }
		else if ( op == 2 ) { std::vector< double > v; for ( size_t c = 0; c < C; ++c ) v.push_back( ref[ F ][ c ] = vp_real( "value" ) ); t.add_frame( v ); ++F; if ( F == 4 ) break; }
		else if ( op == 3 ) { if ( C == 3 ) break; std::vector< double > v; size_t n = size_t( vp_choice( "length", 0, 2 ) ); for ( size_t f = 0; f < n; ++f ) v.push_back( vp_real( "value" ) ); vp_assert( t.add_channel( LBL[ C ], v ) == C, "a channel with data gets the next number" ); size_t F2 = n > F ? n : F; for ( size_t f = 0; f < F2; ++f ) { ref[ f ][ C ] = f < n ? v[ f ] : 0; if ( f >= F ) for ( size_t c = 0; c < C; ++c ) ref[ f ][ c ] = 0; } F = F2; ++C; }
		else { if ( !F || !C ) break; double d = vp_real( "value" ); t[ C - 1 ] = d; ref[ F - 1 ][ C - 1 ] = d; }
	}
	const auto& k = t;
	vp_assert( k.frame_size() == F && k.channel_size() == C && k.data().size() == F * C && k.empty() == ( F * C == 0 ), "the storage has as many frames and channels as were added" );
	for ( size_t f = 0; f < F; ++f ) for ( size_t c = 0; c < C; ++c ) vp_assert( k( f, c ) == ref[ f ][ c ] && t( f, c ) == ref[ f ][ c ] && k.at( f, c ) == ref[ f ][ c ] && t.at( f, c ) == ref[ f ][ c ], "every value is kept" );
	for ( size_t c = 0; c < C; ++c ) vp_assert( k.find_channel( LBL[ c ] ) == c && k.get_label( c ) == LBL[ c ] && t.find_or_add_channel( LBL[ c ] ) == c && ( !F || k[ c ] == ref[ F - 1 ][ c ] ), "channels keep their labels, and the latest frame is current" );
	vp_assert( vp_throws( [&] { k.at( F, 0 ); } ) && vp_throws( [&] { t.at( 0, C ); } ), "a value outside the storage is an error" );
	std::vector< double > wrong( C > 0 && vp_choice( "shorter", 0, 1 ) ? C - 1 : C + 1 ); vp_assert( vp_throws( [&] { t.add_frame( wrong ); } ) && t.frame_size() == F, "a frame needs a value for every channel, and no more" );
}
DRIVER( c17_storage_resize ) {
	size_t F = size_t( vp_choice( "frames", 0, 3 ) ), C = size_t( vp_choice( "channels", 0, 2 ) ), F2 = size_t( vp_choice( "new frames", 0, 3 ) ), C2 = size_t( vp_choice( "new channels", 0, 3 ) );
	storage< double, int > t( F, C, 0.5 ); double ref[ 3 ][ 3 ]; for ( size_t f = 0; f < F; ++f ) for ( size_t c = 0; c < C; ++c ) { vp_assert( t( f, c ) == 0.5, "a new storage has the given value everywhere" ); t( f, c ) = ref[ f ][ c ] = vp_real( "cell" ); }
	double v = vp_real( "fill" );
	if ( F2 < F || C2 < C ) { vp_assert( vp_throws( [&] { t.resize( F2, C2, v ); } ), "a storage cannot shrink" ); F2 = F; C2 = C; } else t.resize( F2, C2, v );
	vp_assert( t.frame_size() == F2 && t.channel_size() == C2 && t.data().size() == F2 * C2, "a storage has the requested size" );
	for ( size_t f = 0; f < F2; ++f ) for ( size_t c = 0; c < C2; ++c ) vp_assert( t( f, c ) == ( f < F && c < C ? ref[ f ][ c ] : v ), "resizing keeps all values and fills the new ones" );
}
DRIVER( c17_storage_labels ) {
	storage< double > s; s.add_channel( "a" ); s.add_frame(); s[ string( "a" ) ] = 1; s[ string( "b" ) ] = 2; s.add_frame(); s[ string( "b" ) ] = 3; s[ string( "c" ) ] = 4;
	vp_assert( s.channel_size() == 3 && s.frame_size() == 2 && s( 0, 0 ) == 1 && s( 0, 1 ) == 2 && s( 1, 0 ) == 0 && s( 1, 1 ) == 3 && s( 1, 2 ) == 4 && s( 0, 2 ) == 0, "channels are addressed by label and added when missing" );
	const auto& k = s; vp_assert( k( "b" ) == 3, "the latest value of a channel" );
	s.clear(); vp_assert( s.empty() && s.frame_size() == 0 && s.channel_size() == 0 && s.find_channel( "a" ) == no_index, "a cleared storage is empty" );
	s.add_channel( "a" ); s.add_frame(); write_storage( s, "v", math::vec3_< double >( 1, 2, 3 ) ); write_storage( s, "q", math::quat_< double >( 4, 5, 6, 7 ) );
	vp_assert( k( "v.x" ) == 1 && k( "v.y" ) == 2 && k( "v.z" ) == 3 && k( "q.w" ) == 4 && k( "q.x" ) == 5 && k( "q.y" ) == 6 && k( "q.z" ) == 7, "vectors and rotations are written component by component" );
	storage< int > e; e.add_channel( "x" ); e.add_channel( "y" ); e.add_frame( 1 ); e.add_frame( 2 ); std::ostringstream o; o << e; vp_assert( o.str() == "x\ty\n1\t1\n2\t2\n", "a storage is printed with its labels" );
}
DRIVER( c17_storage_interpolate ) {
	storage< double, int > s( 3, 2 ); double v[ 3 ]; for ( size_t f = 0; f < 3; ++f ) { v[ f ] = vp_real( "value" ); s( f, 1 ) = v[ f ]; s( f, 0 ) = 99; }
	int k = vp_choice( "case", 0, 4 ); double w = k % 2 ? 0.25 : 0; size_t f = size_t( k / 2 );
	if ( f + 1 < 3 ) vp_assert( s.get_interpolated_value( double( f ) + w, 1 ) == ( 1 - w ) * v[ f ] + w * v[ f + 1 ], "interpolating mixes a frame with the next" );
	else vp_assert( vp_throws( [&] { s.get_interpolated_value( double( f ) + w, 1 ); } ), "there is nothing to interpolate after the last frame" );
}
DRIVER( c17_statistics ) {
	size_t F = size_t( vp_choice( "frames", 1, 3 ) ), C = size_t( vp_choice( "channels", 1, 2 ) ); storage< double > s( F, C ); double x[ 3 ][ 2 ], m[ 2 ] = { 0, 0 };
	for ( size_t f = 0; f < F; ++f ) for ( size_t c = 0; c < C; ++c ) { s( f, c ) = x[ f ][ c ] = vp_real( "value" ); m[ c ] += x[ f ][ c ] / double( F ); }
	auto mean = compute_channel_means( s ); vp_assert( mean.size() == C, "one mean per channel" ); for ( size_t c = 0; c < C; ++c ) vp_assert( mean[ c ] == m[ c ], "the mean of a channel" );
	auto cov = compute_covariance( s ); vp_assert( cov.row_size() == C && cov.column_size() == C, "one covariance per pair of channels" );
	for ( size_t a = 0; a < C; ++a ) for ( size_t b = 0; b < C; ++b ) { double r = 0; for ( size_t f = 0; f < F; ++f ) r += ( x[ f ][ a ] - m[ a ] ) * ( x[ f ][ b ] - m[ b ] ); vp_assert( cov( a, b ) == r / double( F ), "the covariance of two channels" ); }
}
// a label in use, and values that lie in the table itself
DRIVER( c17_table_twice ) {
	size_t R = size_t( vp_choice( "rows", 1, 2 ) ), C = size_t( vp_choice( "columns", 1, 2 ) ); table< double, int > t; double ref[ 3 ][ 3 ]; for ( size_t r = 0; r < R; ++r ) t.add_row( LBL[ r ] ); for ( size_t c = 0; c < C; ++c ) t.add_column( LBL[ c ] ); for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) t( r, c ) = ref[ r ][ c ] = vp_real( "cell" );
	int k = vp_choice( "label", 0, 1 ); vp_assume( size_t( k ) < R && size_t( k ) < C ); vp_assert( vp_throws( [&] { t.add_row( LBL[ k ] ); } ) && vp_throws( [&] { t.add_column( LBL[ k ] ); } ), "a label in use cannot be given to another row or column" );
	vp_assert( t.row_size() == R && t.column_size() == C, "which leaves the size alone" ); for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) vp_assert( t( r, c ) == ref[ r ][ c ] && t.row_labels()[ r ] == LBL[ r ] && t.col_labels()[ c ] == LBL[ c ], "and every cell and label" );
}
DRIVER( c17_table_own ) {
	size_t R = size_t( vp_choice( "rows", 1, 3 ) ), C = size_t( vp_choice( "columns", 1, 3 ) ); table< double, int > t; double ref[ 3 ][ 3 ]; for ( size_t r = 0; r < R; ++r ) t.add_row( int( r ) ); for ( size_t c = 0; c < C; ++c ) t.add_column( int( c ) ); for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) t( r, c ) = ref[ r ][ c ] = vp_real( "cell" );
	int op = vp_choice( "operation", 0, 2 ); size_t sr = size_t( vp_choice( "from row", 0, 1 ) ) * ( R - 1 ), sc = size_t( vp_choice( "from column", 0, 1 ) ) * ( C - 1 ); if ( op == 0 ) t.add_row( 9, t( sr, sc ) ); if ( op == 1 ) t.add_column( 9, t( sr, sc ) ); if ( op == 2 ) t.resize( R + 1, C + 1, t( sr, sc ) );
	for ( size_t r = 0; r < t.row_size(); ++r ) for ( size_t c = 0; c < t.column_size(); ++c ) vp_assert( t( r, c ) == ( r < R && c < C ? ref[ r ][ c ] : ref[ sr ][ sc ] ), "a cell of the table can be the default value" );
}
DRIVER( c17_storage_twice ) {
	storage< double, int > t; double a = vp_real( "a" ), b = vp_real( "b" ); t.add_channel( 11 ); t.add_channel( 12 ); size_t F = size_t( vp_choice( "frames", 0, 2 ) ); for ( size_t f = 0; f < F; ++f ) { t.add_frame( a ); t[ size_t( 1 ) ] = b; } std::vector< double > v( size_t( vp_choice( "length", 0, 3 ) ), 3.0 ); int l = 11 + vp_choice( "label", 0, 1 );
	vp_assert( vp_throws( [&] { t.add_channel( l ); } ) && vp_throws( [&] { t.add_channel( l, 5.0 ); } ) && vp_throws( [&] { t.add_channel( l, v ); } ), "a label in use cannot be given to another channel" ); vp_assert( t.frame_size() == F && t.channel_size() == 2 && t.data().size() == 2 * F && t.find_channel( 11 ) == 0 && t.find_channel( 12 ) == 1, "which leaves the size alone" ); for ( size_t f = 0; f < F; ++f ) vp_assert( t( f, 0 ) == a && t( f, 1 ) == b, "and every value" );
	const auto& k = t; if ( F ) vp_assert( k( 11 ) == a && k( 12 ) == b && vp_throws( [&] { k( 13 ); } ), "a label that does not exist is an error for a constant storage" );
}
DRIVER( c17_storage_own ) {
	storage< double, int > t; double a = vp_real( "a" ), b = vp_real( "b" ); t.add_channel( 11 ); t.add_channel( 12 ); size_t F = size_t( vp_choice( "frames", 1, 3 ) ); for ( size_t f = 0; f < F; ++f ) { t.add_frame( a ); t[ size_t( 1 ) ] = b; } int op = vp_choice( "operation", 0, 3 ); if ( op == 0 ) t.add_channel( 13, t( 0, 1 ) ); if ( op == 1 ) t.add_frame( t( F - 1, 1 ) ); if ( op == 2 ) t.resize( F + 1, 3, t( 0, 1 ) ); if ( op == 3 ) t.find_or_add_channel( 13, t( 0, 1 ) );
	for ( size_t f = 0; f < t.frame_size(); ++f ) for ( size_t c = 0; c < t.channel_size(); ++c ) vp_assert( t( f, c ) == ( f < F && c == 0 ? a : b ), "a value of the storage can be the default value" );
}
// ---- larger sizes
DRIVER( c17_size_table ) {
	int n = vp_size_to( "size", 70, 520 ), tall = vp_choice( "tall", 0, 1 ); size_t R = size_t( tall ? n : 2 ), C = size_t( tall ? 2 : n ); table< double, int > t; double x = vp_real( "x" ); for ( size_t r = 0; r < R; ++r ) t.add_row( int( r ), 1 ); for ( size_t c = 0; c < C; ++c ) { t.add_column( int( c ) + 500, double( c ) ); t( R - 1, c ) = x + double( c ); } t.add_row( 1000, x ); t.add_column( 2000, -x );
	vp_assert( t.row_size() == R + 1 && t.column_size() == C + 1, "the table has as many rows and columns as were added" ); bool ok = true; for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) ok = ok && t( r, c ) == ( r + 1 == R ? x + double( c ) : double( c ) ); vp_assert( ok, "every cell of a large table keeps its value" ); for ( size_t c = 0; c < C; ++c ) vp_assert( t( R, c ) == x && t.get_or_add_column( int( c ) + 500 ) == c, "new rows and labels" ); for ( size_t r = 0; r <= R; ++r ) vp_assert( t( r, C ) == -x, "new columns" );
	t.resize( R + 3, C + 2, 7 ); vp_assert( t( R - 1, size_t( 0 ) ) == x && t( R + 2, C + 1 ) == 7 && t( size_t( 0 ), C - 1 ) == double( R == 1 ? 0 : C - 1 ) && t( R, C - 1 ) == x, "resizing keeps the cells" );
}
DRIVER( c17_size_storage ) {
	int n = vp_size_to( "size", 140, 520 ), tall = vp_choice( "tall", 0, 1 ); size_t F = size_t( tall ? n : 2 ), C = size_t( tall ? 2 : n ); storage< double, int > t; double x = vp_real( "x" ); for ( size_t c = 0; c < C; ++c ) t.add_channel( int( c ), 0.5 ); for ( size_t f = 0; f < F; ++f ) { t.add_frame( double( f ) ); t[ C - 1 ] = x; } t.add_channel( 1000, x );
	vp_assert( t.frame_size() == F && t.channel_size() == C + 1, "as many frames and channels as were added" ); bool ok = true; for ( size_t f = 0; f < F; ++f ) for ( size_t c = 0; c <= C; ++c ) ok = ok && t( f, c ) == ( c + 1 >= C ? x : double( f ) ); vp_assert( ok, "every value of a large storage is kept" ); for ( size_t c = 0; c < C; ++c ) vp_assert( t.find_channel( int( c ) ) == c, "labels are found" );
	t.resize( F + 2, C + 3, 7 ); vp_assert( t( F - 1, C - 1 ) == x && t( F - 1, 0 ) == double( F - 1 ) && t( 0, C ) == x && t( F + 1, C + 2 ) == 7 && t( F, 0 ) == 7 && t( 0, C + 1 ) == 7, "resizing keeps the values" );
}
