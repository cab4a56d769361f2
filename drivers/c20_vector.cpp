// vec3 and vec4 are vectors
#include "vp.h"
#include <cmath>
#include <sstream>
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/prop_node.hpp"
using namespace flut;
using namespace flut::math;
static vec3d any3( const char* l ) { double x = vp_real( l ), y = vp_real( l ), z = vp_real( l ); return vec3d( x, y, z ); }
static vec4d any4( const char* l ) { double x = vp_real( l ), y = vp_real( l ), z = vp_real( l ), w = vp_real( l ); return vec4d( x, y, z, w ); }
static bool is( const vec3d& v, double x, double y, double z ) { return v.x == x && v.y == y && v.z == z; }
static bool is( const vec4d& v, double x, double y, double z, double w ) { return v.x == x && v.y == y && v.z == z && v.w == w; }
DRIVER( c20_arithmetic ) {
	vec3d a = any3( "a" ), b = any3( "b" ); double s = vp_real( "s" ); const vec3d a0 = a;
	vp_assert( is( a + b, a.x + b.x, a.y + b.y, a.z + b.z ), "sum of vectors" ); vp_assert( is( a - b, a.x - b.x, a.y - b.y, a.z - b.z ), "difference of vectors" );
	vp_assert( is( -a, -a.x, -a.y, -a.z ), "negation of a vector" ); vp_assert( is( s * a, s * a.x, s * a.y, s * a.z ) && is( a * s, s * a.x, s * a.y, s * a.z ), "scaled vector" );
	vp_assert( is( a * b, a.x * b.x, a.y * b.y, a.z * b.z ), "component-wise product" );
	vec3d c = a; vec3d& r = ( c += b ); vp_assert( &r == &c && is( c, a.x + b.x, a.y + b.y, a.z + b.z ), "adding in place" ); vec3d& r2 = ( c -= b ); vp_assert( &r2 == &c && is( c, a.x, a.y, a.z ), "subtracting in place" );
	vec3d& r3 = ( c *= s ); vp_assert( &r3 == &c && is( c, s * a.x, s * a.y, s * a.z ), "scaling in place" ); c = a; vec3d& r4 = ( c *= b ); vp_assert( &r4 == &c && is( c, a.x * b.x, a.y * b.y, a.z * b.z ), "component-wise product in place" );
	if ( s != 0 ) { vp_assert( is( a / s, a.x / s, a.y / s, a.z / s ), "divided vector" ); c = a; vec3d& r5 = ( c /= s ); vp_assert( &r5 == &c && is( c, a.x / s, a.y / s, a.z / s ), "dividing in place" ); }
	vp_assert( is( a, a0.x, a0.y, a0.z ), "operands are not changed" );
}
DRIVER( c20_products ) {
	vec3d a = any3( "a" ), b = any3( "b" ), c = any3( "c" );
	vp_assert( dot_product( a, b ) == a.x * b.x + a.y * b.y + a.z * b.z, "dot product" );
	vec3d k = cross_product( a, b ); vp_assert( dot_product( a, k ) == 0 && dot_product( b, k ) == 0, "the cross product is at right angles to both vectors" );
	vec3d n = cross_product( b, a ); vp_assert( is( n, -k.x, -k.y, -k.z ), "the cross product changes sign with the order" );
	vp_assert( dot_product( k, k ) == dot_product( a, a ) * dot_product( b, b ) - dot_product( a, b ) * dot_product( a, b ), "the cross product has the area of the parallelogram" );
	vec3d z = cross_product( vec3d::unit_x(), vec3d::unit_y() ); vp_assert( is( z, 0, 0, 1 ), "x, y and z are right-handed" );
	vp_assert( dot_product( cross_product( a, b ), c ) == dot_product( a, cross_product( b, c ) ), "the triple product" );
}
DRIVER( c20_length ) {
	vec3d a = any3( "a" ), b = any3( "b" ); double q = a.x * a.x + a.y * a.y + a.z * a.z;
	vp_assert( a.squared_length() == q && squared_length( a ) == q, "squared length" ); double l = length( a ); vp_assert( l * l == q && l >= 0 && a.length() == l, "length" );
	double d = distance( a, b ); vp_assert( d * d == squared_length( a - b ) && d >= 0, "the distance is the length of the difference" );
	vp_assert( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 ), "a null vector has only zeros" );
}
DRIVER( c20_equal ) {
	vec3d a = any3( "a" ), b = any3( "b" ); bool e = a.x == b.x && a.y == b.y && a.z == b.z;
	vp_assert( ( a == b ) == e && ( a != b ) == !e, "vectors are equal when all components are" );
}
DRIVER( c20_normalize ) {
	vec3d a = any3( "a" ); vp_assume( a.x * a.x + a.y * a.y + a.z * a.z >= 0.0001 ); double l = length( a );
	vec3d n = normalized( a ); vp_assert( n.x * l == a.x && n.y * l == a.y && n.z * l == a.z, "a normalized vector has the same direction" ); vp_assert( n.x * n.x + n.y * n.y + n.z * n.z == 1, "a normalized vector has unit length" );
	vec3d m = a.normalized(); vp_assert( is( m, n.x, n.y, n.z ), "both forms of normalizing agree" ); vec3d p = a; normalize( p ); vp_assert( is( p, n.x, n.y, n.z ), "normalizing in place agrees" );
	vec3d z = normalized( vec3d() ); vp_assert( is( z, 0, 0, 0 ), "a null vector stays a null vector" );
}
DRIVER( c20_unit_test ) { vec3d a = any3( "a" ); double q = a.x * a.x + a.y * a.y + a.z * a.z; if ( q == 1 ) vp_assert( is_normalized( a ), "a vector of unit length is normalized" ); if ( q > 1.001 || q < 0.999 ) vp_assert( !is_normalized( a ), "a vector of another length is not normalized" ); }
DRIVER( c20_unit_known ) {
	static const double A[][ 3 ] = { { 0.6, 0.8, 0 }, { 0, 0.6, -0.8 }, { 2. / 3, 1. / 3, 2. / 3 }, { 2. / 7, -3. / 7, 6. / 7 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; int k = vp_choice( "vector", 0, 6 ); vec3d a( A[ k ][ 0 ], A[ k ][ 1 ], A[ k ][ 2 ] ); vp_assert( is_normalized( a ) && !is_normalized( a * 1.01 ) && !is_normalized( a * 0.99 ) && !is_normalized( a * 0.5 ) && !is_normalized( a * 2 ), "vectors of unit length are recognized" );
}
DRIVER( c20_access ) {
	vec3d a = any3( "a" ); const vec3d& k = a; vp_assert( k[ 0 ] == a.x && k[ 1 ] == a.y && k[ 2 ] == a.z, "components by index" );
	int n = 0; double s = 0; for ( double v : k ) { s += v; ++n; } vp_assert( n == 3 && s == a.x + a.y + a.z && a.end() - a.begin() == 3, "iterating visits the three components" );
	a[ 1 ] = 5; vp_assert( a.y == 5, "components can be written by index" ); a.set( 1, 2, 3 ); vp_assert( is( a, 1, 2, 3 ), "setting all components" ); a.clear(); vp_assert( is( a, 0, 0, 0 ), "clearing" );
	vp_assert( is( vec3d(), 0, 0, 0 ) && is( vec3d( 4 ), 4, 4, 4 ) && is( vec3d::uniform( 2 ), 2, 2, 2 ) && is( vec3d::zero(), 0, 0, 0 ), "uniform vectors" );
	vp_assert( is( vec3d::unit_x(), 1, 0, 0 ) && is( vec3d::unit_y(), 0, 1, 0 ) && is( vec3d::unit_z(), 0, 0, 1 ) && is( vec3d::neg_unit_x(), -1, 0, 0 ) && is( vec3d::neg_unit_y(), 0, -1, 0 ) && is( vec3d::neg_unit_z(), 0, 0, -1 ), "unit vectors" );
	vp_assert( is( vec3d::unit( 0 ), 1, 0, 0 ) && is( vec3d::unit( 1 ), 0, 1, 0 ) && is( vec3d::unit( 2 ), 0, 0, 1 ), "unit vectors by number" );
	vec3f f( vec3d( 1, 2, 3 ) ); vp_assert( f.x == 1 && f.y == 2 && f.z == 3, "conversion of precision" ); vec3d g; g = vec3f( 4, 5, 6 ); vp_assert( is( g, 4, 5, 6 ), "assignment of another precision" );
}
DRIVER( c20_text ) {
	vec3d v( 1, -2, 0.5 ); std::ostringstream o; o << v; vp_assert( o.str() == "1 -2 0.5", "a vector is written as three numbers" );
	std::istringstream i( "3 4 5" ); vec3d w; i >> w; vp_assert( is( w, 3, 4, 5 ), "a vector is read from three numbers" );
	prop_node pn = static_cast< prop_node >( vec3d( 1, 2, 4 ) ); vec3d u( pn ); vp_assert( is( u, 1, 2, 4 ), "a vector survives its configuration" );
	prop_node t; t.set_value( string( "7 8 9" ) ); vp_assert( is( vec3d( t ), 7, 8, 9 ), "a vector is read from a value of three numbers" ); prop_node e; e.set( "y", 3 ); vp_assert( is( vec3d( e ), 0, 3, 0 ), "missing components are zero" );
}
DRIVER( c20_polar ) {
	double r = vp_real( "r" ), a = vp_real( "inclination" ), b = vp_real( "azimuth" ); vec3d v = vec3_from_polar( r, radiand( a ), radiand( b ) );
	vp_assert( squared_length( v ) == r * r, "a vector from polar coordinates has the given radius" ); vp_assert( v.y == r * std::cos( a ) && v.z == r * std::sin( a ) * std::cos( b ) && v.x == r * std::sin( a ) * std::sin( b ), "inclination is measured from y, azimuth from z" );
}
DRIVER( c20_four ) {
	vec4d a = any4( "a" ), b = any4( "b" ); double s = vp_real( "s" ); const vec4d& k = a;
	vp_assert( is( a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ) && is( a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ) && is( -a, -a.x, -a.y, -a.z, -a.w ), "sums use all four components" );
	vp_assert( is( s * a, s * a.x, s * a.y, s * a.z, s * a.w ) && is( a * s, s * a.x, s * a.y, s * a.z, s * a.w ), "scaling uses all four components" );
	vec4d c = a; vec4d& r = ( c += b ); vp_assert( &r == &c && is( c, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ), "adding in place uses all four components" ); c -= b; vp_assert( is( c, a.x, a.y, a.z, a.w ), "subtracting in place uses all four components" ); c *= s; vp_assert( is( c, a.x * s, a.y * s, a.z * s, a.w * s ), "scaling in place uses all four components" );
	if ( s != 0 ) { c = a; c /= s; vp_assert( is( c, a.x / s, a.y / s, a.z / s, a.w / s ) && is( a / s, a.x / s, a.y / s, a.z / s, a.w / s ), "division uses all four components" ); }
	double q = a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w, l = a.length(); vp_assert( a.squared_length() == q && l * l == q && l >= 0, "the length uses all four components" );
	vp_assert( k[ 0 ] == a.x && k[ 1 ] == a.y && k[ 2 ] == a.z && k[ 3 ] == a.w, "components by index" );
}
DRIVER( c20_four_null ) { vec4d a = any4( "a" ); vp_assert( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 && a.w == 0 ), "a null vector has only zeros" ); vp_assert( is( vec4d(), 0, 0, 0, 0 ) && is( vec4d::zero(), 0, 0, 0, 0 ) && is( vec4d::unit_x(), 1, 0, 0, 0 ) && is( vec4d::unit_y(), 0, 1, 0, 0 ) && is( vec4d::unit_z(), 0, 0, 1, 0 ) && is( vec4d::unit_w(), 0, 0, 0, 1 ), "unit vectors" ); }
