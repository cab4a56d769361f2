// clamping, wrapping, bounds, boxes, ranges
#include "vp.h"
#include <cmath>
#include "flut/math/math.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/irange.hpp"
#include "flut/math/delta.hpp"
#include "flut/math/vec3.hpp"
using namespace flut;
using namespace flut::math;
template< typename T > static void clamp_laws( T v, T lo, T hi ) {
	T e = v < lo ? lo : v > hi ? hi : v; T w = v; T& r = clamp( w, lo, hi );
	vp_assert( &r == &w && w == e && clamped( v, lo, hi ) == e, "clamping gives the nearest value of the range" );
	bounds< T > b( lo, hi ); T u = v; b.clamp( u ); vp_assert( u == e && b.lower == lo && b.upper == hi, "bounds clamp to their limits" );
	vp_assert( b.is_within( v ) == ( lo <= v && v <= hi ) && is_between( v, lo, hi ) == ( lo <= v && v <= hi ), "a value is within its bounds exactly when it is between the limits" );
	vp_assert( b.get_violation( v ) == v - e && b.range() == hi - lo, "the violation is the distance to the range, with its sign" );
	bounds< T > n = -b; vp_assert( n.lower == -hi && n.upper == -lo, "negated bounds hold the negated values" );
	bounds< T > p( v ), z; vp_assert( p.lower == v && p.upper == v && z.lower == T() && z.upper == T(), "bounds of a single value" );
}
DRIVER( c19_clamp_real ) { double v = vp_real( "v" ), lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo <= hi ); clamp_laws< double >( v, lo, hi ); }
DRIVER( c19_clamp_int ) { int v = vp_int( "v", -1000, 1000 ), lo = vp_int( "lo", -1000, 1000 ), hi = vp_int( "hi", -1000, 1000 ); vp_assume( lo <= hi ); clamp_laws< int >( v, lo, hi ); }
DRIVER( c19_soft ) {
	double v = vp_real( "v" ), lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi );
	double b = vp_choice( "boundary", 1, 4 ) / 8.0, r = b * ( hi - lo ), w = v, x = soft_clamp( w, lo, hi, b );
	vp_assert( w == x && x == soft_clamped( v, lo, hi, b ), "soft clamping updates its value" );
	vp_assert( x >= lo && x <= hi, "a soft clamped value is inside the range" );
	if ( v >= lo + r && v <= hi - r ) vp_assert( x == v, "soft clamping leaves the middle of the range alone" );
	else if ( v > hi - r ) vp_assert( x > hi - r && x < hi && x < v, "soft clamping approaches the upper limit from inside" );
	else vp_assert( x < lo + r && x > lo && x > v, "soft clamping approaches the lower limit from inside" );
	double y = v; bounds< double >( lo, hi ).soft_clamp( y, b ); vp_assert( y == x, "bounds soft clamp to their limits" );
}
DRIVER( c19_soft_monotonic ) {
	double v = vp_real( "v" ), u = vp_real( "u" ); vp_assume( v < u );
	vp_assert( soft_clamped( v, -1.0, 3.0, 0.25 ) < soft_clamped( u, -1.0, 3.0, 0.25 ), "soft clamping keeps the order of values" );
}
DRIVER( c19_wrap ) {
	double v = vp_real_in( "v", -40, 40 ); double lo = vp_choice( "lower", -2, 1 ), span = vp_choice( "span", 1, 3 ) * 2, w = v;
	double& r = wrap( w, lo, lo + span ); vp_assert( &r == &w && wrapped( v, lo, lo + span ) == w, "wrapping updates its value" );
	vp_assert( w >= lo && w < lo + span, "a wrapped value is inside the range, whose upper end is its lower end" );
	double k = ( v - w ) / span; vp_assert( k == std::floor( k ), "wrapping changes a value by whole ranges" );
	if ( v >= lo && v < lo + span ) vp_assert( w == v, "a value inside the range is not changed" );
}
DRIVER( c19_square ) {
	double v = vp_real_in( "v", -20, 20 ); double s = square_wave( v ); double h = std::floor( v ); bool even = h / 2 == std::floor( h / 2 );
	vp_assert( s == ( even ? 1 : -1 ), "a square wave is high on the first half of every period and low on the second" );
}
DRIVER( c19_helpers ) {
	double v = vp_real( "v" ), o = vp_real( "o" );
	vp_assert( squared( v ) == v * v && cubed( v ) == v * v * v && ( v == 0 || inv( v ) * v == 1 ), "powers and inverse" );
	vp_assert( sign( v ) == ( v >= 0 ? 1 : -1 ), "the sign of zero and positive values is 1, else -1" );
	double q = signed_sqrt( v ); vp_assert( q * q == ( v >= 0 ? v : -v ) && ( v >= 0 ? q >= 0 : q <= 0 ), "the signed root keeps the sign" );
	if ( v > 0 ) { double i = invsqrt( v ); vp_assert( i * i * v == 1 && i > 0, "the inverse root" ); }
	double a = v, b = v; double& ra = set_if_smaller( a, o ); double& rb = set_if_bigger( b, o );
	vp_assert( &ra == &a && &rb == &b && a == ( o < v ? o : v ) && b == ( o > v ? o : v ), "a value is replaced by a smaller or bigger one only" );
}
DRIVER( c19_equals ) {
	double v = vp_real( "v" ), o = vp_real( "o" ); double d = v > o ? v - o : o - v, m = v < 0 ? -v : v;
	vp_assert( equals( v, o, 0.125 ) == ( d <= 0.125 * m ) && equals( v, v ), "values are equal when they differ by at most the relative tolerance" );
}
DRIVER( c19_integers ) {
	int v = vp_choice( "v", -70, 70 ); bool p = false; for ( int k = 1; k <= 64; k *= 2 ) if ( v == k ) p = true;
	vp_assert( is_power_of_two( v ) == p, "powers of two" ); vp_assert( is_even( v ) == ( v % 2 == 0 ) && is_odd( v ) == ( v % 2 != 0 ), "even and odd" );
	vp_assert( is_power_of_two( 1u << 31 ) && is_power_of_two( 1ull << 63 ) && !is_power_of_two( 0ull ) && !is_power_of_two( ( 1ull << 63 ) + 1 ), "large powers of two" );
}
DRIVER( c19_box ) {
	vec3d p[ 3 ]; int n = vp_choice( "points", 1, VP_N( 2, 3 ) ); double lo[ 3 ], hi[ 3 ]; bounding_boxd b, one;
	for ( int i = 0; i < n; ++i ) { p[ i ] = vec3d( vp_real_in( "x", -1e9, 1e9 ), vp_real_in( "y", -1e9, 1e9 ), vp_real_in( "z", -1e9, 1e9 ) ); b += p[ i ]; if ( i == 0 ) one = bounding_boxd( p[ 0 ] ); else one += bounding_boxd( p[ i ] ); for ( int k = 0; k < 3; ++k ) { double v = p[ i ][ size_t( k ) ]; if ( i == 0 || v < lo[ k ] ) lo[ k ] = v; if ( i == 0 || v > hi[ k ] ) hi[ k ] = v; } }
	for ( size_t k = 0; k < 3; ++k ) { vp_assert( b.lower_bounds[ k ] == lo[ k ] && b.upper_bounds[ k ] == hi[ k ], "a box is the smallest that holds all its points" ); vp_assert( one.lower_bounds[ k ] == lo[ k ] && one.upper_bounds[ k ] == hi[ k ], "joined boxes hold exactly the points of both" ); }
	bounding_boxd c = one; c += bounding_boxd(); for ( size_t k = 0; k < 3; ++k ) vp_assert( c.lower_bounds[ k ] == lo[ k ] && c.upper_bounds[ k ] == hi[ k ], "an empty box adds nothing" );
}
DRIVER( c19_box_corners ) { vec3d l( vp_real( "x" ), vp_real( "y" ), vp_real( "z" ) ), u( vp_real( "x" ), vp_real( "y" ), vp_real( "z" ) ); vp_assume( l.x <= u.x && l.y <= u.y && l.z <= u.z ); bounding_boxd b( l, u ), p( u ); bool ok = true; for ( size_t k = 0; k < 3; ++k ) ok = ok && b.lower_bounds[ k ] == l[ k ] && b.upper_bounds[ k ] == u[ k ] && p.lower_bounds[ k ] == u[ k ] && p.upper_bounds[ k ] == u[ k ]; vp_assert( ok, "a box is made from its corners or a point" ); bounding_boxd& r = ( b += l ); bounding_boxd& q = ( b += p ); vp_assert( &r == &b && &q == &b && b.lower_bounds.x == l.x && b.upper_bounds.z == u.z, "points inside a box do not change it" ); }
DRIVER( c19_constants ) {
	vp_assert( constantsd::zero() == 0 && constantsd::one() == 1 && constantsi::zero() == 0 && constantsi::one() == 1, "zero and one" ); double pi = 3.141592653589793; vp_assert( std::fabs( constantsd::pi() - pi ) < 1e-13 && std::fabs( constantsd::half_pi() - pi / 2 ) < 1e-13 && std::fabs( constantsd::two_pi() - 2 * pi ) < 1e-13 && std::fabs( double_pi - pi ) < 1e-13 && std::fabs( real_pi - pi ) < 1e-6 && std::fabs( float_pi - float( pi ) ) < 1e-6f, "pi, its half and its double" );
	vp_assert( constantsi::max() == 2147483647 && constantsi::min() == -2147483647 - 1 && constantsi::lowest() == constantsi::min() && constantsd::max() == -constantsd::lowest() && constantsd::max() > 1e308 && constantsd::min() > 0 && constantsd::min() < 1e-307 && constantsf::max() > 3.4e38f && constantsf::lowest() < -3.4e38f, "the limits of the types" ); vp_assert( constantsd::epsilon() > 0 && 1 + constantsd::epsilon() != 1 && constantsd::epsilon() < 1e-15 && constantsd::relaxed_epsilon() == 4 * constantsd::epsilon(), "the precision of the types" ); vp_assert( constantsi::sentinel() == constantsi::lowest() && constants< unsigned >::sentinel() == 0xffffffffu && constantsd::nan() != constantsd::nan(), "values that stand for none" );
	double v = vp_real( "v" ); vp_assert( std::fabs( deg_to_rad( rad_to_deg( v ) ) - v ) <= std::fabs( v ) * 1e-9, "converting to degrees and back" ); vp_assert( rad_to_deg( constantsd::pi() ) == 180 && rad_to_deg( 0.0 ) == 0 && std::fabs( deg_to_rad( 90.0 ) - constantsd::half_pi() ) < 1e-13, "degrees and radians" );
}
DRIVER( c19_range_rest ) {
	int b = vp_choice( "begin", -3, 3 ), len = vp_choice( "length", 0, 7 ), s = vp_choice( "step", 1, 4 ), n = ( len + s - 1 ) / s, k = 0;
	for ( int v : make_irange( b, b + len, s ) ) { vp_assert( k < n && v == b + k * s, "a stepped range visits every step before its end" ); ++k; } vp_assert( k == n, "and ends there, also when the last step is incomplete" );
	k = 0; for ( int v : make_irange( b, b - len, -s ) ) { vp_assert( k < n && v == b - k * s, "also downwards" ); ++k; } vp_assert( k == n, "and ends there" );
	k = 0; for ( size_t v : make_irange( size_t( 5 ), size_t( 5 + len ), size_t( s ) ) ) { vp_assert( k < n && v == size_t( 5 + k * s ), "also for sizes" ); ++k; } vp_assert( k == n, "and ends there" );
}
DRIVER( c19_range ) {
	int b = vp_choice( "begin", -3, 3 ), n = vp_choice( "count", 0, 4 ), s = vp_choice( "step", 1, 3 ); int k = 0;
	for ( int v : make_irange( b, b + n ) ) { vp_assert( k < n && v == b + k, "a range visits its numbers in order" ); ++k; } vp_assert( k == n, "a range visits every number" );
	k = 0; for ( int v : make_irange( n ) ) { vp_assert( k < n && v == k, "a range from zero visits its numbers in order" ); ++k; } vp_assert( k == n, "a range from zero visits every number" );
	k = 0; for ( int v : make_irange( b, b + n * s, s ) ) { vp_assert( k < n && v == b + k * s, "a stepped range visits every step" ); ++k; } vp_assert( k == n, "a stepped range ends after the last step" );
	k = 0; for ( int v : make_irange( make_irange( b, b + n * s ), s ) ) { vp_assert( k < n && v == b + k * s, "a stepped range visits every step" ); ++k; } vp_assert( k == n, "a stepped range ends after the last step" );
	auto r = make_irange( b, b + n * s, s ); auto i = r.begin(), e = r.end(); vp_assert( e - i == n, "the distance in a stepped range is the number of steps" ); if ( n ) { vp_assert( i++ == b && *i == b + s, "stepping returns the value before" ); vp_assert( i == i && !( i != i ), "iterators compare by position" ); }
	k = 0; for ( int v : irange_step< int >( b, b + n ) ) { vp_assert( k < n && v == b + k, "without a step a stepped range visits every number" ); ++k; } vp_assert( k == n, "without a step a stepped range visits all numbers" ); k = 0; for ( int v : irange_step< int >( make_irange( b, b + n ) ) ) { vp_assert( k < n && v == b + k, "also when made from a range" ); ++k; } vp_assert( k == n, "all of them" );
	irange< int > z; vp_assert( !( z.begin() != z.end() ), "an empty range visits nothing" ); auto q = make_irange( b, b + n ); auto j = q.begin(); vp_assert( q.end() - j == n && j++ == b && *j == b + 1 && ++j == b + 2, "stepping through a range" );
}
DRIVER( c19_range_down ) { int b = vp_choice( "begin", -3, 3 ), n = vp_choice( "distance", 0, 6 ), s = vp_choice( "step", 1, 3 ), k = 0; for ( int v : make_irange( b, b - n, -s ) ) { vp_assert( k * s < n && v == b - k * s, "a range with a negative step goes down" ); ++k; if ( k > 8 ) break; } vp_assert( k == ( n + s - 1 ) / s, "and ends" ); k = 0; for ( int v : make_irange( b, b + n, s ) ) { vp_assert( k * s < n && v == b + k * s, "a range with a step visits every step before its end" ); ++k; if ( k > 8 ) break; } vp_assert( k == ( n + s - 1 ) / s, "a range with a step that does not divide it ends" ); }
DRIVER( c19_delta ) { double a = vp_real( "a" ), b = vp_real( "b" ), c = vp_real( "c" ); delta< double > d( a ); vp_assert( d( b ) == b - a && d( c ) == c - b && d( c ) == 0, "a delta is the difference with the value before" ); }
DRIVER( c19_bounds_text ) {
	boundsi b; char_stream s( "3 9" ); s >> b; vp_assert( b.lower == 3 && b.upper == 9, "bounds are read as two numbers" );
	prop_node v; v.set_value( string( "-2..7" ) ); boundsi c( v ); vp_assert( c.lower == -2 && c.upper == 7, "bounds are read from a range" );
	prop_node w; w.set_value( string( "5" ) ); boundsi d( w ); vp_assert( d.lower == 5 && d.upper == 5, "bounds are read from a single value" );
	prop_node m; m.set( "min", 1 ); m.set( "max", 4 ); boundsi e( m ); vp_assert( e.lower == 1 && e.upper == 4, "bounds are read from their limits" );
	prop_node u; u.set( "upper", 6 ); boundsi f( u ); vp_assert( f.lower == constantsi::lowest() && f.upper == 6, "a missing limit is unlimited" );
	prop_node n; n.set( "lower", 2 ); boundsd g( n ); vp_assert( g.lower == 2 && g.upper == constantsd::max(), "a missing limit is unlimited" );
	prop_node o; o.set( vp_choice( "name", 0, 1 ) ? "max" : "upper", 3 ); boundsd h( o ); vp_assert( h.lower == constantsd::lowest() && h.lower < 0 && h.upper == 3, "a missing lower limit is unlimited" ); prop_node k; k.set( vp_choice( "lower name", 0, 1 ) ? "min" : "lower", -3 ); boundsi l( k ); boundsf lf( k ); vp_assert( l.lower == -3 && l.upper == constantsi::max() && lf.lower == -3 && lf.upper == constantsf::max(), "a missing upper limit is unlimited" );
	vp_assert( vp_throws( [] { prop_node x; boundsi y( x ); } ), "bounds without any limit are an error" );
}
DRIVER( c19_bounds_write ) { int a = vp_choice( "lower", -2, 1 ), b = vp_choice( "upper", 8, 11 ); std::ostringstream o; o << boundsi( a, b ); vp_assert( o.str() == std::to_string( a ) + ' ' + std::to_string( b ), "bounds are written as their limits" ); boundsi r; char_stream s( o.str() ); s >> r; vp_assert( r.lower == a && r.upper == b, "and read back" ); }
// ---- larger sizes
DRIVER( c19_size ) {
	int n = vp_size_to( "size", 300, 1100 ), b = vp_choice( "begin", 0, 2 ); b = b == 0 ? -n : b == 1 ? 0 : n; int k = 0; for ( int v : make_irange( b, b + n ) ) { if ( v != b + k ) break; ++k; } vp_assert( k == n, "a long range visits every number in order" ); k = 0; for ( int v : make_irange( b, b + 3 * n, 3 ) ) { if ( v != b + 3 * k ) break; ++k; } vp_assert( k == n, "a long stepped range visits every step" );
	bounding_boxd x; double far = vp_real_in( "far", 2000, 4000 ); for ( int i = 0; i < n; ++i ) x += vec3d( i == n / 2 ? far : i, -i, i == n - 1 ? -far : 0 ); vp_assert( x.lower_bounds.x == 0 && x.upper_bounds.x == far && x.lower_bounds.y == 1 - n && x.upper_bounds.y == 0 && x.lower_bounds.z == -far && x.upper_bounds.z == 0, "a box holds all of many points" );
}
