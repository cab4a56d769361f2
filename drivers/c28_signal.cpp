// interpolation, splines, delays and filters
#include "vp.h"
#include <cmath>
#include <vector>
#include "flut/buffer/interpolation.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/catmull_rom.hpp"
#include "flut/math/delayer.hpp"
#include "flut/filter.hpp"
using std::vector;
using flut::math::vec3d;
typedef vector< std::pair< double, double > > keyed;
DRIVER( c28_keyed ) {
	keyed k; int n = vp_choice( "n", 1, 4 ); double at = vp_real_in( "first", -10, 10 ); for ( int i = 0; i < n; ++i ) { k.push_back( { at, vp_real( "v" ) } ); at += vp_real_in( "step", 0.25, 4 ); }
	double x = vp_real_in( "x", -30, 50 ); double r = flut::interpolated_value( k, x );
	if ( x <= k.front().first ) vp_assert( r == k.front().second, "before the first key the first value" );
	else if ( x >= k.back().first ) vp_assert( r == k.back().second, "after the last key the last value" );
	else { for ( int i = 0; i + 1 < n; ++i ) { double a = k[ i ].first, b = k[ i + 1 ].first; if ( x >= a && x <= b ) vp_assert( r * ( b - a ) == ( b - x ) * k[ i ].second + ( x - a ) * k[ i + 1 ].second, "between two keys the value on the line between theirs" ); } }
}
DRIVER( c28_at_keys ) { keyed k; double v[ 3 ]; for ( int i = 0; i < 3; ++i ) { v[ i ] = vp_real( "v" ); k.push_back( { i * i + 1.0, v[ i ] } ); } for ( int i = 0; i < 3; ++i ) vp_assert( flut::interpolated_value( k, i * i + 1.0 ) == v[ i ], "at a key its value" ); keyed none; vp_assert( vp_throws( [&] { flut::interpolated_value( none, 1.0 ); } ), "nothing to interpolate is an error" ); }
DRIVER( c28_indexed ) {
	vector< double > c; int n = vp_choice( "n", 1, 4 ); for ( int i = 0; i < n; ++i ) c.push_back( vp_real( "v" ) ); double x = vp_real_in( "x", -2, 6 ); double r = flut::interpolated_value( c, x );
	if ( x <= 0 ) vp_assert( r == c.front(), "before the first sample the first value" ); else if ( x >= n - 1 ) vp_assert( r == c.back(), "after the last sample the last value" );
	else for ( int i = 0; i + 1 < n; ++i ) if ( x >= i && x <= i + 1 ) vp_assert( r == ( i + 1 - x ) * c[ i ] + ( x - i ) * c[ i + 1 ], "between two samples the value on the line between them" );
	vector< double > none; vp_assert( vp_throws( [&] { flut::interpolated_value( none, 1.0 ); } ), "nothing to interpolate is an error" );
}
DRIVER( c28_piecewise ) {
	double a = vp_real( "a" ), b = vp_real( "b" ), c = vp_real( "c" ); auto f = [=]( double x ) { return a + b * x + c * x * x; }; int n = vp_choice( "intervals", 1, 4 ), lo = vp_choice( "min", -1, 1 ); double st = vp_choice( "step", 0, 1 ) ? 1 : 0.5;
	flut::math::regular_piecewise_linear_function< double > g( lo, lo + n * st, n, f ); double x = vp_real_in( "x", -3, 8 ), y = g( x );
	for ( int i = 0; i < n; ++i ) { double l = lo + i * st, h = l + st; if ( ( x >= l || i == 0 ) && ( x <= h || i == n - 1 ) ) vp_assert( y * st == ( h - x ) * f( l ) + ( x - l ) * f( h ), "a piecewise linear function is the line between the points around x" ); }
}
DRIVER( c28_segment ) {
	double p0 = vp_real( "p" ), p1 = vp_real( "p" ), p2 = vp_real( "p" ), p3 = vp_real( "p" ), t = vp_real( "t" ); flut::catmull_rom_segment< double > s( p0, p1, p2, p3 );
	vp_assert( s( 0.0 ) == p1 && s( 1.0 ) == p2, "a segment runs from its second point to its third" );
	vp_assert( 2 * s( t ) == 2 * p1 + ( p2 - p0 ) * t + ( 2 * p0 - 5 * p1 + 4 * p2 - p3 ) * t * t + ( 3 * p1 - p0 - 3 * p2 + p3 ) * t * t * t, "with the slope between the neighbours of its ends" );
}
DRIVER( c28_spline ) {
	int n = vp_choice( "points", 4, 6 ); vector< double > p, t; for ( int i = 0; i < n; ++i ) p.push_back( vp_real( "p" ) ); double at = vp_choice( "first", -1, 1 ), step[] = { 1, 2, 0.5, 1 }; for ( int i = 0; i < n - 2; ++i ) { t.push_back( at ); at += step[ i ]; }
	flut::catmull_rom< double, double > s( p, t ); for ( int i = 0; i < n - 2; ++i ) vp_assert( s( t[ i ] ) == p[ i + 1 ], "a spline passes through its inner points at their times" );
	double x = vp_real_in( "x", -1, 5 ); for ( int i = 0; i + 1 < n - 2; ++i ) if ( x >= t[ i ] && x <= t[ i + 1 ] ) { flut::catmull_rom_segment< double > g( p[ i ], p[ i + 1 ], p[ i + 2 ], p[ i + 3 ] ); vp_assert( s( x ) == g( ( x - t[ i ] ) / ( t[ i + 1 ] - t[ i ] ) ), "and follows the segment of the time in between" ); }
	vector< double > few( p.begin(), p.begin() + 3 ); vp_assert( vp_throws( [&] { flut::catmull_rom< double, double > e( few, vector< double >( 1 ) ); } ), "too few points are an error" ); vp_assert( vp_throws( [&] { flut::catmull_rom< double, double > e( p, p ); } ), "another number of times is an error" );
}
DRIVER( c28_alpha ) {
	vec3d p0( 0, 0, 0 ), p1( 1, 0, 0 ), p2( 1, vp_real_in( "y", 1, 2 ), 0 ), p3( 2, 4, vp_real_in( "z", 0, 2 ) ); flut::catmull_rom_segment_alpha< vec3d > s( p0, p1, p2, p3, 1.0f ); vec3d a = s( 0.0f ), b = s( 1.0f );
	vp_assert( a.x == p1.x && a.y == p1.y && a.z == p1.z, "a segment with chord lengths starts at its second point" ); vp_assert( b.x == p2.x && b.y == p2.y && b.z == p2.z, "and ends at its third" );
}
DRIVER( c28_alpha_line ) {
	double x = vp_real( "x" ), y = vp_real( "y" ); float d = float( vp_choice( "first", 1, 3 ) ), e = float( vp_choice( "second", 1, 3 ) ), f = float( vp_choice( "third", 1, 3 ) ); double t = vp_real_in( "t", 0, 1 ); vec3d p0( x, y, 1 ), p1( x, y + d, 1 ), p2( x, y + d + e, 1 ), p3( x, y + d + e + f, 1 );
	flut::catmull_rom_segment_alpha< vec3d > s( p0, p1, p2, p3, 1.0f ); vec3d r = s( float( t ) ); vp_assert( r.x == x && r.z == 1 && r.y == y + d + t * e, "a segment with chord lengths of a straight line follows the line at a constant pace" );
}
DRIVER( c28_length ) {
	double a = vp_real_in( "a", 1, 5 ); flut::catmull_rom_segment< vec3d > s( vec3d( -a, 0, 0 ), vec3d( 0, 0, 0 ), vec3d( a, 0, 0 ), vec3d( 2 * a, 0, 0 ) ); int n = vp_choice( "steps", 1, 4 );
	vp_assert( flut::compute_spline_length( s, 0.0f, 1.0f, n ) == a, "the length of a straight spline is the distance of its ends" ); vp_assert( flut::compute_spline_length( s, 0.25f, 0.5f, n ) * 4 == a, "and of a part of it" );
}
template< int N > void delay( int k ) {
	float d = float( vp_real_in( "delay", 0.5, 8 ) ); double init = vp_real( "init" ); flut::delayer< double, N > f( d, init ); vp_assert( f() == init, "nothing added yet: the initial value" ); float dt = d / ( N - 1 ) / k; double s[ 13 ]; s[ 0 ] = init;
	for ( int j = 1; j <= 2 * N * k && j <= 12; ++j ) { s[ j ] = vp_real( "s" ); double r = f( s[ j ], dt ); int late = j - k * ( N - 1 ), m = ( late + 8 * k ) / k - 8, q = late - m * k; double lo = m * k <= 0 ? init : s[ m * k ], hi = ( m + 1 ) * k <= 0 ? init : s[ ( m + 1 ) * k ];
		vp_assert( r * k == q * hi + ( k - q ) * lo, "a delayed signal is the signal of a delay ago" ); vp_assert( f() == r, "reading it again gives the same" ); }
}
DRIVER( c28_delay ) { int k = vp_choice( "steps per slot", 1, 3 ); switch ( vp_choice( "slots", 2, 4 ) ) { case 2: delay< 2 >( k ); break; case 3: delay< 3 >( k ); break; case 4: delay< 4 >( k ); break; } }
template< int N > void smooth( int k ) {
	float d = float( vp_real_in( "delay", 0.5, 8 ) ); double init = vp_real( "init" ); flut::smooth_delayer< double, N > f( d, init ); vp_assert( f() == init, "nothing added yet: the initial value" ); float w = d / ( N - 0.5f ), dt = w / k; double mean[ 8 ] = { init }, sum = 0; int M = 0;
	for ( int j = 1; j <= 2 * N * k && j <= 9; ++j ) { double s = vp_real( "s" ); sum += s; double r = f( s, dt ); int q = j % k; if ( q == 0 ) { mean[ ++M ] = sum / k; sum = 0; } double lo = M - ( N - 1 ) <= 0 ? init : mean[ M - ( N - 1 ) ], hi = M - ( N - 2 ) <= 0 ? init : mean[ M - ( N - 2 ) ];
		vp_assert( r * k == q * hi + ( k - q ) * lo, "a smoothly delayed signal is the mean of a delay ago" ); vp_assert( f() == r, "reading it again gives the same" ); }
}
DRIVER( c28_smooth ) { int k = vp_choice( "steps per slot", 1, 3 ); switch ( vp_choice( "slots", 2, 3 ) ) { case 2: smooth< 2 >( k ); break; case 3: smooth< 3 >( k ); break; } }
DRIVER( c28_straddle ) {
	flut::smooth_delayer< double, 2 > f( 3.0f, 0.0 ); double a = vp_real( "a" ), b = vp_real( "b" ); float t = float( vp_real_in( "t", 0.5, 1.5 ) ), u = float( vp_real_in( "u", 1.6, 2 ) ); f( a, t ); double r = f( b, u ); double left = t + u - 2;
	vp_assert( r * 2 * 2 == left * ( t * a + ( 2 - t ) * b ), "a sample across the end of a slot counts for both" );
}
DRIVER( c28_constant ) { flut::delayer< double, 3 > f( 2.0f, 5.0 ); flut::smooth_delayer< double, 3 > g( 2.0f, 5.0 ); int k = vp_choice( "k", 1, 4 ); float dt = float( k ) / 4; for ( int j = 0; j < 12; ++j ) { vp_assert( f( 5.0, dt ) == 5 && g( 5.0, dt ) == 5, "a constant signal stays constant" ); } }
DRIVER( c28_filter ) {
	flut::iir_filter< double, 2 > z; double x = vp_real( "x" ); vp_assert( z() == 0 && z( x ) == 0, "a new filter gives nothing" ); flut::iir_filter< double, 2 > f; f.b0_ = vp_real( "b" ); f.b_[ 0 ] = vp_real( "b" ); f.b_[ 1 ] = vp_real( "b" ); f.a_[ 0 ] = vp_real( "a" ); f.a_[ 1 ] = vp_real( "a" );
	double X[ 6 ] = { 0, 0 }, Y[ 6 ] = { 0, 0 }; for ( int j = 2; j < 6; ++j ) { X[ j ] = vp_real( "x" ); Y[ j ] = f.b0_ * X[ j ] + f.b_[ 0 ] * X[ j - 1 ] + f.b_[ 1 ] * X[ j - 2 ] + f.a_[ 0 ] * Y[ j - 1 ] + f.a_[ 1 ] * Y[ j - 2 ]; double y = f( X[ j ] ); vp_assert( y == Y[ j ] && f() == Y[ j ] && f.velocity() == Y[ j ] - Y[ j - 1 ], "a filter follows its recurrence" ); }
}
DRIVER( c28_filter3 ) { flut::iir_filter< double, 3 > f; f.b0_ = 0.5; f.b_[ 0 ] = 2; f.b_[ 1 ] = -1; f.b_[ 2 ] = 3; f.a_[ 0 ] = 0.25; f.a_[ 1 ] = 1; f.a_[ 2 ] = -2; double X[ 8 ] = { 0, 0, 0 }, Y[ 8 ] = { 0, 0, 0 }; for ( int j = 3; j < 8; ++j ) { X[ j ] = vp_real( "x" ); Y[ j ] = 0.5 * X[ j ] + 2 * X[ j - 1 ] - X[ j - 2 ] + 3 * X[ j - 3 ] + 0.25 * Y[ j - 1 ] + Y[ j - 2 ] - 2 * Y[ j - 3 ]; vp_assert( f( X[ j ] ) == Y[ j ], "a filter of third order follows its recurrence" ); } }
DRIVER( c28_butterworth ) {
	double c = vp_real_in( "cutoff", 0.01, 0.45 ); auto f = flut::make_lowpass_butterworth_2nd_order( c );
	vp_assert( f.b0_ + f.b_[ 0 ] + f.b_[ 1 ] + f.a_[ 0 ] + f.a_[ 1 ] == 1, "a low-pass filter keeps a constant signal" ); vp_assert( f.b0_ - f.b_[ 0 ] + f.b_[ 1 ] == 0, "and removes the highest frequency" );
	vp_assert( f.a_[ 1 ] < 1 && f.a_[ 1 ] > -1 && f.a_[ 0 ] + f.a_[ 1 ] < 1 && f.a_[ 1 ] - f.a_[ 0 ] < 1, "a low-pass filter is stable" );
}
DRIVER( c28_cutoff ) {
	static const double cs[] = { 0.01, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45 }; double c = cs[ vp_choice( "cutoff", 0, 6 ) ]; auto f = flut::make_lowpass_butterworth_2nd_order( c ); double w = 2 * 3.14159265358979323846 * c, co = std::cos( w ), si = std::sin( w ), c2 = co * co - si * si, s2 = 2 * si * co;
	double nr = f.b0_ + f.b_[ 0 ] * co + f.b_[ 1 ] * c2, ni = f.b_[ 0 ] * si + f.b_[ 1 ] * s2, dr = 1 - f.a_[ 0 ] * co - f.a_[ 1 ] * c2, di = f.a_[ 0 ] * si + f.a_[ 1 ] * s2, e = 2 * ( nr * nr + ni * ni ) - dr * dr - di * di; vp_assert( e < 1e-9 && e > -1e-9, "at the cut-off frequency half of the power passes" );
}
// ---- larger sizes
DRIVER( c28_size ) {
	int n = vp_size_to( "samples", 140, 1100 ); keyed k; vector< double > c; for ( int i = 0; i < n; ++i ) { k.push_back( { 2.0 * i, double( ( i * 7 ) % 19 ) } ); c.push_back( double( ( i * 7 ) % 19 ) ); } double u = vp_real_in( "u", 0, 1 ); bool ok = true, at = true; for ( int i = 0; i + 1 < n; ++i ) { double want = ( 1 - u ) * c[ size_t( i ) ] + u * c[ size_t( i + 1 ) ]; ok = ok && flut::interpolated_value( k, 2.0 * i + 2 * u ) == want; at = at && flut::interpolated_value( c, double( i ) + 0.25 ) == 0.75 * c[ size_t( i ) ] + 0.25 * c[ size_t( i + 1 ) ]; } vp_assert( ok && at, "interpolating in many samples" ); vp_assert( flut::interpolated_value( k, 2.0 * n ) == c.back() && flut::interpolated_value( c, double( n ) ) == c.back(), "after the last of many samples the last value" );
	flut::math::regular_piecewise_linear_function< double > g( 0, n, size_t( n ), []( double x ) { return x * x; } ); bool on = true; for ( int i = 0; i < n; ++i ) on = on && g( i + 0.5 ) == i * i + i + 0.5; vp_assert( on, "a function of many pieces" );
	flut::delayer< double, 3 > d( 2.0f, 0.0 ); flut::iir_filter< double, 1 > f; f.b0_ = 1; f.b_[ 0 ] = 0.5; f.a_[ 0 ] = -1; double y = 0, px = 0; bool dl = true, fl = true; for ( int i = 1; i <= n; ++i ) { double r = d( i, 1.0f ); dl = dl && r == ( i <= 2 ? 0 : i - 2 ); y = i + 0.5 * px - y; px = i; fl = fl && f( i ) == y; } vp_assert( dl, "a long signal is delayed all along" ); vp_assert( fl, "a long signal is filtered all along" );
}
