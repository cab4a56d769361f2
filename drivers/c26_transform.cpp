// transforms are rigid motions, angles convert between their units
#include "vp.h"
#include <cmath>
#include <sstream>
#include "flut/math/transform.hpp"
#include "flut/math/angle.hpp"
using namespace flut;
using namespace flut::math;
static vec3d any3( const char* l ) { double x = vp_real( l ), y = vp_real( l ), z = vp_real( l ); return vec3d( x, y, z ); }
static quatd any( const char* l ) { double w = vp_real( l ), x = vp_real( l ), y = vp_real( l ), z = vp_real( l ); return quatd( w, x, y, z ); }
static double n2( const quatd& q ) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
static bool same( const vec3d& a, const vec3d& b ) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool same( const quatd& a, const quatd& b ) { return a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z; }
static bool same( const transformd& a, const transformd& b ) { return same( a.p, b.p ) && same( a.q, b.q ); }
static quatd unit( const char* l ) { quatd q = any( l ); double n = n2( q ); vp_assume( n >= 0.0001 ); double s = vp_sqrt( n ); return quatd( q.w / s, q.x / s, q.y / s, q.z / s ); }
DRIVER( c26_construct ) {
	transformd d; vp_assert( same( d.p, vec3d( 0, 0, 0 ) ) && same( d.q, quatd( 1, 0, 0, 0 ) ), "a new transform changes nothing" );
	vec3d p = any3( "p" ); quatd q = any( "q" ); transformd t( p, q ), tp( p ), tq( q ), id = transformd::identity();
	vp_assert( same( t.p, p ) && same( t.q, q ) && same( tp.p, p ) && same( tp.q, quatd( 1, 0, 0, 0 ) ) && same( tq.p, vec3d( 0, 0, 0 ) ) && same( tq.q, q ) && same( id, d ), "a transform has the translation and rotation it is made of" );
	vec3d v = any3( "v" ); quatd o = any( "o" );
	vp_assert( same( t * v, p + q * v ) && same( t.transform( v ), p + q * v ), "a point is rotated, then moved" );
	vp_assert( same( t * o, q * o ) && same( t.transform( o ), q * o ), "an orientation is rotated" );
	vp_assert( same( id * v, v ) && same( id * o, o ) && same( id * t, t ) && same( t * id, t ), "the identity changes nothing" );
	transformd u( any3( "p2" ), o ); vp_assert( same( t * u, t.transform( u ) ) && same( ( t * u ).q, q * o ) && same( ( t * u ).p, p + q * u.p ), "transforms concatenate" );
	vp_assert( same( t.p, p ) && same( t.q, q ) && same( u.q, o ), "operands are left alone" );
}
DRIVER( c26_inverse ) {
	transformd t( any3( "p" ), unit( "q" ) ); vec3d v = any3( "v" ); quatd o = any( "o" );
	vp_assert( same( t.inv_transform( t * v ), v ), "a transformed point is transformed back" );
	vp_assert( same( t.inv_transform( t * o ), o ), "a transformed orientation is transformed back" );
	transformd u( any3( "p2" ), o ); vp_assert( same( t.inv_transform( t * u ), u ), "a transformed transform is transformed back" );
}
DRIVER( c26_inverse2 ) {
	transformd t( any3( "p" ), unit( "q" ) ); vec3d v = any3( "v" ); transformd i = t.inverse(), j = -t; vp_assert( same( i, j ), "negation is inversion" );
	vp_assert( same( i * v, t.inv_transform( v ) ), "the inverse transforms as the inverse transformation" );
	vp_assert( same( t * i, transformd() ) && same( i * t, transformd() ), "a transform and its inverse cancel" );
	vp_assert( same( i.inverse(), t ), "inverting twice" );
}
DRIVER( c26_rigid ) {
	transformd t( any3( "p" ), unit( "q" ) ); vec3d v = any3( "v" ), w = any3( "w" ); vp_assert( squared_length( t * v - t * w ) == squared_length( v - w ), "distances are kept" );
}
DRIVER( c26_compose ) {
	double a = vp_real( "a" ), b = vp_real( "b" ); vp_assume( a * a + b * b == 1 ); int i = vp_choice( "axis", 0, 2 ); double u[ 3 ] = { 0, 0, 0 }; u[ i ] = b;
	transformd s( any3( "p" ), quatd( a, u[ 0 ], u[ 1 ], u[ 2 ] ) ); int k = vp_choice( "second", 0, 3 ); quatd h( k == 0, k == 1, k == 2, k == 3 ); transformd t( any3( "r" ), h ); vec3d v = any3( "v" );
	vp_assert( same( ( s * t ) * v, s * ( t * v ) ), "a concatenation applies the second, then the first" ); vp_assert( same( ( t * s ) * v, t * ( s * v ) ), "a concatenation applies the second, then the first, in this order too" );
	vp_assert( same( ( s * t ).inv_transform( v ), t.inv_transform( s.inv_transform( v ) ) ), "the inverse of a concatenation applies the inverses in reverse" );
}
DRIVER( c26_props ) {
	static const double xs[] = { -2.5, 0, 7, 1000.25 }; vec3d p( xs[ vp_choice( "x", 0, 3 ) ], 2, -3 ); quatd q( 0, 0, xs[ vp_choice( "w", 0, 3 ) ], 1 ); transformd t( p, q ); prop_node n = prop_node_cast< transformd >::to( t );
	transformd u = prop_node_cast< transformd >::from( n ); vp_assert( same( u, t ), "a transform in a configuration is read back" );
	prop_node m; m.set( "t", t ); vp_assert( same( m.get< transformd >( "t" ), t ), "a transform as a setting is read back" );
}
static bool near( double a, double b ) { double d = a - b; return d <= 1e-9 && d >= -1e-9; }
DRIVER( c26_units ) {
	double v = vp_real_in( "v", -1000, 1000 ); const double pi = 3.14159265358979323846;
	degreed d( v ); radiand r( d ); vp_assert( near( r.value, v * pi / 180 ) && near( d.rad_value(), v * pi / 180 ) && d.deg_value() == v && near( d.radian().value, v * pi / 180 ) && d.degree().value == v, "degrees convert to radians" );
	radiand s( v ); degreed e( s ); vp_assert( near( e.value * pi, v * 180 ) && near( s.deg_value() * pi, v * 180 ) && s.rad_value() == v && near( s.degree().value * pi, v * 180 ) && s.radian().value == v, "radians convert to degrees" );
	degreed back( r ); vp_assert( near( back.value, v ), "converting there and back" );
	radiand a; a = d; vp_assert( near( a.value, v * pi / 180 ), "assignment converts" ); degreed b; b = s; vp_assert( near( b.value * pi, v * 180 ), "assignment converts to degrees" );
	vp_assert( near( deg_to_rad( v ), v * pi / 180 ) && near( rad_to_deg( v ) * pi, v * 180 ), "plain conversion" );
}
DRIVER( c26_same_unit ) {
	double v = vp_real( "v" ), w = vp_real( "w" ), s = vp_real( "s" ); vp_assume( s >= 1 || s <= -1 ); degreed a( v ), b( w ), z; degreed c( a ); vp_assert( z.value == 0 && c.value == v && double( a ) == v && rad( v ).value == v && deg( v ).value == v, "an angle has the value it is given" );
	vp_assert( ( a + b ).value == v + w && ( a - b ).value == v - w && ( -a ).value == -v && ( a * s ).value == v * s && ( s * a ).value == s * v && ( a / s ).value * s == v, "arithmetic acts on the value" );
	degreed e( a ); e += b; vp_assert( e.value == v + w, "adding" ); e -= b; vp_assert( e.value == v, "subtracting" ); e *= s; vp_assert( e.value == v * s, "scaling" ); e /= s; vp_assert( e.value == v, "dividing" );
	vp_assert( a.value == v && b.value == w, "operands are left alone" );
	vp_assert( ( a < b ) == ( v < w ) && ( a > b ) == ( v > w ) && ( a <= b ) == ( v <= w ) && ( a >= b ) == ( v >= w ) && ( a == b ) == ( v == w ) && ( a != b ) == ( v != w ), "comparison orders by value" );
}
DRIVER( c26_mixed ) {
	double v = vp_real_in( "v", -1000, 1000 ); int i = vp_int( "i", -5, 5 ); degree_< int > n( i ); degreed d( v ); vp_assert( ( n + d ).value == i + v && ( d + n ).value == v + i && ( n - d ).value == i - v && ( d - n ).value == v - i, "numbers of different types are added and subtracted without rounding" );
	radian_< int > m( i ); radiand r( v ); vp_assert( ( m + r ).value == i + v && ( r - m ).value == v - i && ( m - r ).value == i - v, "also in radians" ); vp_assume( v >= 1 || v <= -1 ); vp_assert( ( 3.0 / d ).value * v == 3 && ( 3 / r ).value * v == 3 && ( 3 * d ).value == 3 * v && ( d * 3 ).value == 3 * v && ( d / 4 ).value * 4 == v && ( d / 4.0 ).value * 4 == v, "numbers and angles are multiplied and divided as values" );
	degreed e( v ); e *= 2; vp_assert( e.value == 2 * v, "scaling by a whole number" ); e /= 2; vp_assert( e.value == v, "and back" ); e += degreed( 1 ); vp_assert( e.value == v + 1 && d.value == v, "operands are left alone" );
}
DRIVER( c26_functions ) {
	double v = vp_real_in( "v", -1, 1 ); radiand r( v ); degreed d( v ); double w = d.rad_value();
	vp_assert( flut::math::sin( r ) == std::sin( v ) && flut::math::cos( r ) == std::cos( v ) && flut::math::tan( r ) == std::tan( v ), "functions of angles in radians" );
	vp_assert( flut::math::sin( d ) == std::sin( w ) && flut::math::cos( d ) == std::cos( w ) && flut::math::tan( d ) == std::tan( w ), "functions of angles in degrees" );
}
DRIVER( c26_text ) {
	static const double xs[] = { -2.5, 0, 7, 1000.25 }; double k = xs[ vp_choice( "k", 0, 3 ) ]; degreed d( k ); std::ostringstream o; o << d; std::ostringstream e; e << double( k ); vp_assert( o.str() == e.str(), "an angle is written as its value" );
	std::istringstream i( o.str() ); degreed r; i >> r; vp_assert( r.value == k, "and read back" ); char_stream cs( o.str().c_str() ); degreed q; cs >> q; vp_assert( q.value == k, "also from a character stream" );
	vp_assert( ( 5_degf ).value == 5.0f && ( 2.5_degf ).value == 2.5f && ( 3_radf ).value == 3.0f && ( 0.5_radf ).value == 0.5f, "literals" );
}
