// quaternions are rotations
#include "vp.h"
#include <cmath>
#include <sstream>
#include "flut/math/quat.hpp"
#include "flut/prop_node.hpp"
using namespace flut;
using namespace flut::math;
static vec3d any3( const char* l ) { double x = vp_real( l ), y = vp_real( l ), z = vp_real( l ); return vec3d( x, y, z ); }
static quatd any( const char* l ) { double w = vp_real( l ), x = vp_real( l ), y = vp_real( l ), z = vp_real( l ); return quatd( w, x, y, z ); }
static double n2( const quatd& q ) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
static bool is( const vec3d& v, double x, double y, double z ) { return v.x == x && v.y == y && v.z == z; }
static bool same( const vec3d& a, const vec3d& b ) { return is( a, b.x, b.y, b.z ); }
static bool is( const quatd& q, double w, double x, double y, double z ) { return q.w == w && q.x == x && q.y == y && q.z == z; }
static bool same( const quatd& a, const quatd& b ) { return is( a, b.w, b.x, b.y, b.z ); }
DRIVER( c21_product ) {
	quatd i( 0, 1, 0, 0 ), j( 0, 0, 1, 0 ), k( 0, 0, 0, 1 ), one;
	vp_assert( is( one, 1, 0, 0, 0 ) && is( quatd::identity(), 1, 0, 0, 0 ), "the identity" );
	vp_assert( same( i * j, k ) && same( j * k, i ) && same( k * i, j ) && is( j * i, 0, 0, 0, -1 ) && is( i * i, -1, 0, 0, 0 ) && is( j * j, -1, 0, 0, 0 ) && is( k * k, -1, 0, 0, 0 ), "the units multiply as quaternion units" );
	quatd p = any( "p" ), q = any( "q" ); vp_assert( same( p * one, p ) && same( one * p, p ), "the identity changes nothing" );
	vp_assert( n2( p * q ) == n2( p ) * n2( q ), "the product multiplies lengths" );
	quatd c = -p; vp_assert( is( c, p.w, -p.x, -p.y, -p.z ) && is( p * c, n2( p ), 0, 0, 0 ) && is( c * p, n2( p ), 0, 0, 0 ), "the conjugate undoes the rotation" );
	vp_assert( same( -( p * q ), ( -q ) * ( -p ) ), "the conjugate of a product is the reversed product of conjugates" );
}
DRIVER( c21_associative ) { quatd p = any( "p" ), q = any( "q" ), r = any( "r" ); vp_assert( same( ( p * q ) * r, p * ( q * r ) ), "the product is associative" ); }
DRIVER( c21_rotate ) {
	quatd q = any( "q" ); vec3d v = any3( "v" ); double n = n2( q );
	// for unit q, rotating equals q v q* ; in general the difference is ( 1 - |q|^2 ) v
	vec3d r = q * v; quatd s = q * quatd( 0, v.x, v.y, v.z ) * -q;
	vp_assert( r.x == s.x + ( 1 - n ) * v.x && r.y == s.y + ( 1 - n ) * v.y && r.z == s.z + ( 1 - n ) * v.z, "rotating a vector is the product with the quaternion and its conjugate" );
}
static quatd unit( const char* l ) { quatd q = any( l ); double n = n2( q ); vp_assume( n >= 0.0001 ); double s = vp_sqrt( n ); return quatd( q.w / s, q.x / s, q.y / s, q.z / s ); }
DRIVER( c21_rotate_unit ) { quatd q = unit( "q" ); vec3d v = any3( "v" ); vec3d r = q * v; vp_assert( squared_length( r ) == squared_length( v ), "rotating keeps the length" ); vp_assert( same( -q * r, v ), "the conjugate rotates back" ); }
DRIVER( c21_compose ) { double a = vp_real( "a" ), b = vp_real( "b" ), c = vp_real( "c" ), d = vp_real( "d" ); vp_assume( a * a + b * b == 1 && c * c + d * d == 1 ); int i = vp_choice( "axis", 0, 2 ), j = vp_choice( "second", 0, 2 ); double u[ 3 ] = { 0, 0, 0 }, w[ 3 ] = { 0, 0, 0 }; u[ i ] = b; w[ j ] = d; quatd p( a, u[ 0 ], u[ 1 ], u[ 2 ] ), q( c, w[ 0 ], w[ 1 ], w[ 2 ] ); vec3d v = any3( "v" );
	vec3d l = ( p * q ) * v, r = p * ( q * v ); double z = ( l.x - r.x ) * 1; (void)z;
	vp_assert( l.x == r.x && l.y == r.y && l.z == r.z, "rotating by a product is rotating by the second, then by the first" ); }
DRIVER( c21_normalize ) {
	quatd q = any( "q" ); vp_assume( n2( q ) >= 0.0001 ); double l = length( q ); vp_assert( l * l == n2( q ) && l > 0, "the length uses all four components" );
	quatd n = normalized( q ); vp_assert( n2( n ) == 1 && n.w * l == q.w && n.x * l == q.x && n.y * l == q.y && n.z * l == q.z, "a normalized quaternion has unit length and the same direction" ); quatd m = q; quatd& r = normalize( m ); vp_assert( &r == &m && same( m, n ), "normalizing in place agrees" );
}
DRIVER( c21_unit_test ) { quatd q = any( "q" ); if ( n2( q ) == 1 ) vp_assert( is_normalized( q ), "a quaternion of unit length is normalized" ); if ( n2( q ) > 1.001 || n2( q ) < 0.999 ) vp_assert( !is_normalized( q ), "a quaternion of another length is not" ); quatd z = normalized( quatd( 0, 0, 0, 0 ) ); vp_assert( is( z, 0, 0, 0, 0 ), "a null quaternion stays null" ); quatd y( 0, 0, 0, 0 ); normalize( y ); vp_assert( is( y, 0, 0, 0, 0 ), "also when normalized in place" ); }
DRIVER( c21_unit_known ) { static const double A[][ 4 ] = { { 0.5, 0.5, 0.5, 0.5 }, { 0.1, 0.5, -0.5, 0.7 }, { 0.8, 0, 0, -0.6 }, { 0, -0.6, 0.8, 0 } }; int k = vp_choice( "quaternion", 0, 3 ), c = vp_choice( "component", 0, 4 ); double v[ 4 ]; for ( int i = 0; i < 4; ++i ) v[ i ] = c == i ? A[ k ][ i ] * 1.5 + 0.5 : A[ k ][ i ]; double n = v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ] + v[ 3 ] * v[ 3 ]; bool one = n > 0.999999 && n < 1.000001; vp_assume( one || n > 1.01 || n < 0.99 ); vp_assert( is_normalized( quatd( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ) ) == one, "quaternions of unit length are normalized, others are not" ); }
DRIVER( c21_axis_angle ) {
	double a = vp_real( "angle" ); int i = vp_choice( "axis", 0, 2 ); vec3d ax = vec3d::unit( size_t( i ) ); quatd q = quat_from_axis_angle( ax, radiand( 2 * a ) );
	vp_assert( q.w == std::cos( a ) && q.x == ax.x * std::sin( a ) && q.y == ax.y * std::sin( a ) && q.z == ax.z * std::sin( a ), "a rotation about an axis" ); vp_assert( n2( q ) == 1, "a rotation has unit length" ); vp_assert( same( q * ax, ax ), "the axis does not move" );
	double c = std::cos( a ), s = std::sin( a ); vec3d y = vec3d::unit( size_t( ( i + 1 ) % 3 ) ), z = vec3d::unit( size_t( ( i + 2 ) % 3 ) ), r = q * y; double cc = c * c - s * s, ss = 2 * s * c;
	vp_assert( same( r, cc * y + ss * z ), "rotations are counter-clockwise about their axis" );
	vp_assert( vp_throws( [&] { quat_from_axis_angle( vec3d( 2, 0, 0 ), radiand( 1 ) ); } ), "an axis that is not normalized is an error" );
}
DRIVER( c21_euler ) {
	double a = vp_real( "x" ), b = vp_real( "y" ), c = vp_real( "z" ); quatd x( std::cos( a ), std::sin( a ), 0, 0 ), y( std::cos( b ), 0, std::sin( b ), 0 ), z( std::cos( c ), 0, 0, std::sin( c ) ); radiand ra( 2 * a ), rb( 2 * b ), rc( 2 * c );
	switch ( vp_choice( "order", 0, 5 ) ) {
	case 0: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::xyz ), x * ( y * z ) ) && same( quat_from_euler( ra, rb, rc ), x * ( y * z ) ), "Euler angles in order xyz, the default" ); break;
	case 1: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::xzy ), x * ( z * y ) ), "Euler angles in order xzy" ); break;
	case 2: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::yxz ), y * ( x * z ) ), "Euler angles in order yxz" ); break;
	case 3: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::yzx ), y * ( z * x ) ), "Euler angles in order yzx" ); break;
	case 4: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::zxy ), z * ( x * y ) ), "Euler angles in order zxy" ); break;
	case 5: vp_assert( same( quat_from_euler( ra, rb, rc, euler_order::zyx ), z * ( y * x ) ) && same( quat_from_euler( vec3_< radiand >( ra, rb, rc ), euler_order::zyx ), z * ( y * x ) ), "Euler angles in order zyx" ); break;
	}
	vp_assert( vp_throws( [&] { quat_from_euler( ra, rb, rc, euler_order( 17 ) ); } ), "an unknown order is an error" );
}
// the rotation from one direction to another takes the first to the second
static const double D[][ 3 ] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0, -1, 0 }, { 0, 0, -1 }, { 0.6, 0.8, 0 }, { 0, -0.6, 0.8 } };
static bool nearly( double a, double b ) { double d = a - b; return d < 1e-9 && d > -1e-9; }
DRIVER( c21_directions ) {
	int i = vp_choice( "source", 0, 6 ), j = vp_choice( "target", 0, 6 ); vec3d s( D[ i ][ 0 ], D[ i ][ 1 ], D[ i ][ 2 ] ), t( D[ j ][ 0 ], D[ j ][ 1 ], D[ j ][ 2 ] ); bool back = vp_choice( "opposite", 0, 1 ); if ( back ) t = -s;
	quatd q = quat_from_directions( 2.0 * s, 3.0 * t ); vec3d r = q * s; vp_assert( nearly( n2( q ), 1 ), "the rotation between two directions has unit length" );
	vp_assert( nearly( r.x, t.x ) && nearly( r.y, t.y ) && nearly( r.z, t.z ), "the rotation from one direction to another takes the first to the second" );
}
DRIVER( c21_same_direction ) { vec3d v = any3( "v" ); vp_assume( squared_length( v ) >= 0.01 ); quatd q = quat_from_directions( v, v ); vp_assert( is( q, 1, 0, 0, 0 ), "no rotation is needed between equal directions" ); }
DRIVER( c21_quats ) { quatd p = any( "p" ), q = any( "q" ); quatd r = quat_from_quats( p, q ); double n = n2( p ); quatd s = p * r; vp_assert( is( s, n * q.w, n * q.x, n * q.y, n * q.z ), "the rotation from one orientation to another takes the first to the second" ); }
DRIVER( c21_rotation_vector ) {
	quatd q = any( "q" ); double l2 = q.x * q.x + q.y * q.y + q.z * q.z; vp_assume( l2 >= 0.0001 && n2( q ) == 1 ); vec3d r = rotation_vector_from_quat( q ); double a = 2 * std::acos( q.w );
	vp_assert( squared_length( r ) == a * a, "a rotation vector is as long as the angle" ); vec3d k = cross_product( r, vec3d( q.x, q.y, q.z ) ); vp_assert( is( k, 0, 0, 0 ), "a rotation vector points along the axis" );
	auto aa = axis_angle_from_quat( q ); vp_assert( aa.second.value == a && squared_length( aa.first ) == 1, "axis and angle of a rotation" ); vec3d k2 = cross_product( aa.first, vec3d( q.x, q.y, q.z ) ); vp_assert( is( k2, 0, 0, 0 ) && dot_product( aa.first, vec3d( q.x, q.y, q.z ) ) > 0, "the axis is the direction of the rotation" );
	vp_assert( is( rotation_vector_from_quat( quatd() ), 0, 0, 0 ) && axis_angle_from_quat( quatd() ).second.value == 0, "the identity has no rotation" );
}
static const double Q[][ 4 ] = { { 0, 1, 0, 0 }, { 0.6, 0.8, 0, 0 }, { 0.6, 0, -0.8, 0 }, { 0, 0.6, 0, 0.8 }, { -0.6, 0, 0, 0.8 }, { 0.8, 0, 0, -0.6 }, { 0.5, 0.5, -0.5, 0.5 } };
DRIVER( c21_rotation_given ) {
	int i = vp_choice( "rotation", 0, 6 ); const double* c = Q[ i ]; quatd q( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ); double a = 2 * std::acos( q.w ), l = std::sqrt( q.x * q.x + q.y * q.y + q.z * q.z ); auto aa = axis_angle_from_quat( q ); vec3d r = rotation_vector_from_quat( q );
	vp_assert( nearly( aa.second.value, a ) && nearly( aa.first.x * l, q.x ) && nearly( aa.first.y * l, q.y ) && nearly( aa.first.z * l, q.z ), "axis and angle of a rotation" );
	vp_assert( nearly( r.x * l, a * q.x ) && nearly( r.y * l, a * q.y ) && nearly( r.z * l, a * q.z ), "a rotation vector is the axis times the angle" );
	quatd back = quat_from_axis_angle( aa.first, aa.second ); vp_assert( nearly( back.x, q.x ) && nearly( back.y, q.y ) && nearly( back.z, q.z ) && nearly( back.w, q.w ), "axis and angle give back the rotation" );
}
// from axes: the matrix of a rotation gives back the rotation
DRIVER( c21_axes_positive ) {
	// a unit quaternion ( 1, x, y, z ) / n with positive trace
	double x = vp_real_in( "x", -0.5, 0.5 ), y = vp_real_in( "y", -0.5, 0.5 ), z = vp_real_in( "z", -0.5, 0.5 ); double n = 1 + x * x + y * y + z * z;
	vec3d ax( ( 1 + x * x - y * y - z * z ) / n, 2 * ( x * y + z ) / n, 2 * ( x * z - y ) / n ), ay( 2 * ( x * y - z ) / n, ( 1 - x * x + y * y - z * z ) / n, 2 * ( y * z + x ) / n ), az( 2 * ( x * z + y ) / n, 2 * ( y * z - x ) / n, ( 1 - x * x - y * y + z * z ) / n );
	quatd q = quat_from_axes( ax, ay, az );
	vp_assert( q.x == x * q.w && q.y == y * q.w && q.z == z * q.w, "axes of a rotation give the rotation" ); vp_assert( q.w > 0 && q.w * q.w * n == 1, "axes of a rotation give a unit quaternion" );
}
DRIVER( c21_axes_negative ) {
	// half turns about an axis with rational components: the trace is -1
	int k = vp_choice( "axis", 0, 5 ); static const double A[][ 3 ] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0.6, 0.8, 0 }, { 0.8, 0, 0.6 }, { 0, 0.6, 0.8 } }; double x = A[ k ][ 0 ], y = A[ k ][ 1 ], z = A[ k ][ 2 ];
	vec3d ax( x * x - y * y - z * z, 2 * x * y, 2 * x * z ), ay( 2 * x * y, y * y - x * x - z * z, 2 * y * z ), az( 2 * x * z, 2 * y * z, z * z - x * x - y * y );
	quatd q = quat_from_axes( ax, ay, az ); vp_assert( nearly( q.w, 0 ) && nearly( q.x * y, q.y * x ) && nearly( q.x * z, q.z * x ) && nearly( q.y * z, q.z * y ) && nearly( n2( q ), 1 ), "axes of a half turn give the half turn" );
}
DRIVER( c21_axes_any ) {
	// unit quaternions with rational components, every place and sign: turns of more than 120 degrees about any axis
	static const double A[][ 4 ] = { { 1. / 6, 1. / 6, 0.5, 5. / 6 }, { 0.1, 0.5, 0.5, 0.7 }, { 0.5, 0.5, 0.5, 0.5 }, { 0, 2. / 7, 3. / 7, 6. / 7 } }; int k = vp_choice( "quaternion", 0, 3 ), r = vp_choice( "order", 0, 5 ), g = vp_choice( "signs", 0, 7 ); static const int R[][ 3 ] = { { 1, 2, 3 }, { 2, 3, 1 }, { 3, 1, 2 }, { 1, 3, 2 }, { 3, 2, 1 }, { 2, 1, 3 } };
	double w = A[ k ][ 0 ], x = A[ k ][ R[ r ][ 0 ] ], y = A[ k ][ R[ r ][ 1 ] ], z = A[ k ][ R[ r ][ 2 ] ]; if ( g & 1 ) x = -x; if ( g & 2 ) y = -y; if ( g & 4 ) z = -z;
	vec3d ax( w * w + x * x - y * y - z * z, 2 * ( x * y + w * z ), 2 * ( x * z - w * y ) ), ay( 2 * ( x * y - w * z ), w * w - x * x + y * y - z * z, 2 * ( y * z + w * x ) ), az( 2 * ( x * z + w * y ), 2 * ( y * z - w * x ), w * w - x * x - y * y + z * z );
	quatd q = quat_from_axes( ax, ay, az ); vp_assert( nearly( q.w * x, q.x * w ) && nearly( q.w * y, q.y * w ) && nearly( q.w * z, q.z * w ) && nearly( q.x * y, q.y * x ) && nearly( q.x * z, q.z * x ) && nearly( n2( q ), 1 ), "axes of any turn give the turn" );
}
static void euler_back( const quatd& q ) {
	vec3d x = q * vec3d( 1, 0, 0 ), y = q * vec3d( 0, 1, 0 ), z = q * vec3d( 0, 0, 1 ); auto e = euler_from_quat( q );
	vp_assert( pitch( q ).value == std::atan2( y.z, y.y ) && e.x.value == pitch( q ).value, "pitch is the turn about x" ); vp_assert( yaw( q ).value == std::atan2( z.x, z.z ) && e.y.value == yaw( q ).value, "yaw is the turn about y" ); vp_assert( roll( q ).value == std::atan2( x.y, x.x ) && e.z.value == roll( q ).value, "roll is the turn about z" );
}
DRIVER( c21_euler_back ) { quatd q = any( "q" ); vp_assume( n2( q ) == 1 ); euler_back( q ); }
DRIVER( c21_euler_back_turn ) {
	static const double A[][ 4 ] = { { 0.5, 0.1, 0.5, 0.7 }, { 0.5, -0.5, 0.5, 0.5 }, { 0.6, 0.8, 0, 0 }, { 0.6, 0, 0.8, 0 }, { 0.6, 0, 0, -0.8 }, { 0.9, 0.3, -0.1, 0.3 } }; int k = vp_choice( "quaternion", 0, 5 ); quatd q( A[ k ][ 0 ], A[ k ][ 1 ], A[ k ][ 2 ], A[ k ][ 3 ] ); vec3d x = q * vec3d( 1, 0, 0 ), y = q * vec3d( 0, 1, 0 ), z = q * vec3d( 0, 0, 1 ); auto e = euler_from_quat( q );
	vp_assert( nearly( e.x.value, std::atan2( y.z, y.y ) ) && nearly( e.y.value, std::atan2( z.x, z.z ) ) && nearly( e.z.value, std::atan2( x.y, x.x ) ), "Euler angles from a turn" );
}
DRIVER( c21_text ) { std::ostringstream o; o << quatd( 1, -2, 0.5, 3 ); vp_assert( o.str() == "1 -2 0.5 3", "a quaternion is written as four numbers" ); prop_node pn = static_cast< prop_node >( quatd( 1, 2, 3, 4 ) ); vp_assert( is( quatd( pn ), 1, 2, 3, 4 ), "a quaternion survives its configuration" ); quatf f( quatd( 1, 2, 3, 4 ) ); quatd g; g = f; vp_assert( is( g, 1, 2, 3, 4 ), "conversion of precision" ); g.set( 5, 6, 7, 8 ); vp_assert( is( g, 5, 6, 7, 8 ), "setting all components" ); }
