// averages, medians, order, regression and polynomials
#include "vp.h"
#include <sstream>
#include <vector>
#include "flut/container_tools.hpp"
#include "flut/math/average.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/math/polynomial.hpp"
using std::vector;
static vector< double > reals( const char* l, int n ) { vector< double > v; for ( int i = 0; i < n; ++i ) v.push_back( vp_real( l ) ); return v; }
DRIVER( c27_average ) {
	vector< double > v = reals( "v", vp_choice( "n", 1, 5 ) ), c = v; double s = 0; for ( double x : v ) s += x;
	vp_assert( flut::average( v ) * double( v.size() ) == s && flut::average( v.begin(), v.end() ) * double( v.size() ) == s, "the average is the sum divided by the number" ); vp_assert( v == c, "averaging leaves the values alone" );
}
DRIVER( c27_weighted ) {
	flut::math::average a; vp_assert( a.empty() && a.get() == 0, "nothing added" ); int n = vp_choice( "n", 1, 3 ); double s = 0, t = 0;
	for ( int i = 0; i < n; ++i ) { double v = vp_real( "v" ), w = vp_real_in( "w", 0.5, 10 ); if ( vp_choice( "weighted", 0, 1 ) ) a.add( v, w ); else { w = 1; a.add( v ); } s += v * w; t += w; vp_assert( !a.empty() && a.get() * t == s, "the running average is the weighted mean of what was added" ); }
	a.reset(); vp_assert( a.empty() && a.get() == 0, "a reset average is empty" ); double x = vp_real( "x" ); a.add( x ); vp_assert( a.get() == x, "and starts again" );
}
// k-th smallest: at most k smaller, at least k + 1 not larger
static bool is_rank( const vector< double >& v, double x, size_t k ) { size_t lt = 0, le = 0; for ( double y : v ) { if ( y < x ) ++lt; if ( y <= x ) ++le; } return lt <= k && k < le; }
DRIVER( c27_median ) {
	vector< double > v = reals( "v", vp_choice( "n", 1, VP_N( 3, 4 ) ) ), c = v; double m = flut::median( v ); size_t n = v.size();
	if ( n % 2 ) vp_assert( is_rank( v, m, n / 2 ), "the median is the middle value" ); else { size_t b = 0, a = 0; for ( double x : v ) { if ( x <= m ) ++b; if ( x >= m ) ++a; } vp_assert( b >= n / 2 && a >= n / 2, "half of the values lie on either side of the median" ); }
	vp_assert( v == c, "finding the median leaves the values alone" ); if ( n == 2 ) vp_assert( m * 2 == v[ 0 ] + v[ 1 ], "the median of two values is their mean" );
	if ( n == 4 ) { flut::vector< double > s = flut::sorted_copy( v ); vp_assert( m * 2 == s[ 1 ] + s[ 2 ], "the median of four values is the mean of the middle two" ); }
}
DRIVER( c27_median_whole ) { int a = vp_int( "a", -20, 20 ), b = vp_int( "b", -20, 20 ); vp_assume( a <= b ); vector< int > v{ b, a }; vp_assert( flut::median( v ) == ( a + b ) / 2, "the median of whole numbers" ); vector< int > w{ 30, b, -30, a }; vp_assert( flut::median( w ) == ( a + b ) / 2, "the median of four whole numbers" ); }
DRIVER( c27_median_edges ) {
	vp_assert( vp_throws( [] { flut::median( vector< double >() ); } ), "no values have no median" ); double a = vp_real( "a" ), b = vp_real( "b" ); vp_assume( a > 5 && b < 3 ); vector< double > v{ a, 4, b, 3.5 }; vp_assert( flut::median( v ) == 3.75, "the median of an even number of values is the mean of the middle two" );
	vector< double > w{ 5, a, b, 4, 3 }; vp_assert( flut::median( w ) == 4, "the median of five values" );
}
DRIVER( c27_sort ) {
	vector< double > v = reals( "v", vp_choice( "n", 0, VP_N( 3, 4 ) ) ), c = v; vector< double > s = flut::sorted_copy( v ); vp_assert( s.size() == v.size() && v == c, "a sorted copy has all values and leaves the original alone" );
	for ( size_t i = 0; i < s.size(); ++i ) vp_assert( is_rank( v, s[ i ], i ) && ( i == 0 || s[ i - 1 ] <= s[ i ] ), "a sorted copy is the values in ascending order" );
	auto idx = flut::sort_indices( v ); vp_assert( idx.size() == v.size(), "as many indices as values" ); size_t seen = 0; for ( size_t i : idx ) { vp_assert( i < v.size(), "indices exist" ); seen |= size_t( 1 ) << i; } vp_assert( seen == ( size_t( 1 ) << v.size() ) - 1, "every index once" );
	for ( size_t i = 1; i < idx.size(); ++i ) vp_assert( v[ idx[ i - 1 ] ] <= v[ idx[ i ] ], "sorted indices visit the values in ascending order" );
}
DRIVER( c27_top ) {
	vector< double > v = reals( "v", vp_choice( "n", 1, 3 ) ), c = v, s = flut::sorted_copy( v ); size_t k = size_t( vp_choice( "k", 1, int( v.size() ) + 2 ) ); double t = flut::top_average( v, k ), e = 0; k = k < v.size() ? k : v.size(); for ( size_t i = 0; i < k; ++i ) e += s[ i ];
	vp_assert( t * double( k ) == e, "the top average is the average of the smallest values" ); vp_assert( v == c, "which leaves the values alone" );
}
DRIVER( c27_find ) {
	vector< int > v; int n = vp_choice( "n", 1, 4 ); for ( int i = 0; i < n; ++i ) v.push_back( vp_int( "v", 0, 3 ) ); int x = vp_int( "x", 0, 3 ); size_t i = flut::find_index( v, x ); size_t e = size_t( -1 ); for ( int j = n; j-- > 0; ) if ( v[ j ] == x ) e = j;
	vp_assert( i == e, "the first index with the value, or none" ); vp_assert( flut::back_index( v ) == size_t( n - 1 ), "the last index" ); vector< int > none; vp_assert( vp_throws( [&] { flut::back_index( none ); } ), "no last index of nothing" ); vp_assert( flut::find_index( none, 1 ) == size_t( -1 ), "nothing in nothing" );
	auto it = flut::find( v, x ); vp_assert( size_t( it - v.begin() ) == ( e == size_t( -1 ) ? v.size() : e ), "finding by iterator agrees" );
	auto p = flut::find_if( v, [x]( int y ) { return y == x; } ); vp_assert( p == it, "finding by condition agrees" );
	const vector< int > cv( v ); auto q = flut::find_if( cv, [x]( int y ) { return y == x; } ); vp_assert( q - cv.begin() == it - v.begin(), "also in a constant list" );
	auto lo = flut::min_element( v ), hi = flut::max_element( v ); auto clo = flut::min_element( cv ), chi = flut::max_element( cv ); for ( int y : v ) vp_assert( *lo <= y && *hi >= y && *clo <= y && *chi >= y, "the smallest and the largest element" );
}
DRIVER( c27_view ) {
	vector< int > v; int n = vp_choice( "n", 0, 5 ); for ( int i = 0; i < n; ++i ) v.push_back( vp_int( "v", 0, 3 ) ); int m = vp_int( "m", 0, 3 ); auto pr = [m]( int y ) { return y >= m; }; auto view = flut::make_view_if( v, pr );
	vector< int > e, g, h; for ( int y : v ) if ( y >= m ) e.push_back( y ); for ( auto it = view.begin(); it != view.end(); ++it ) { g.push_back( *it ); vp_assert( it.operator->() == &*it, "members of the element" ); } vp_assert( g == e, "a filtered view visits the matching elements in order" );
	auto v2 = flut::make_view_if( v.begin(), v.end(), pr ); for ( auto it = v2.begin(); !( it == v2.end() ); ) h.push_back( *it++ ); vp_assert( h == e, "also with the postfix step" );
}
DRIVER( c27_regression ) {
	int n = vp_choice( "n", 2, 4 ); vector< double > x, y = reals( "y", n ); double at = vp_real( "x" ); vp_assume( at == at ); double st[ 4 ] = { 0, 0, 0, 0 }; for ( int i = 0; i < n; ++i ) { x.push_back( at ); st[ i ] = vp_real_in( "step", 0.25, 4 ); at += st[ i ]; }
	auto f = flut::linear_regression( x, y ); double r = 0, rx = 0; for ( int i = 0; i < n; ++i ) { double d = y[ i ] - f( x[ i ] ); r += d; rx += d * x[ i ]; }
	vp_assert( r == 0, "the residuals of a regression cancel" ); vp_assert( rx == 0, "the residuals of a regression are not correlated with x" );
}
DRIVER( c27_regression_step ) {
	int n = vp_choice( "n", 2, 5 ); vector< double > y = reals( "y", n ); double x0 = vp_real( "x" ), dx = vp_real_in( "dx", 0.25, 4 ); auto f = flut::linear_regression( x0, dx, y ); double r = 0, rx = 0; for ( int i = 0; i < n; ++i ) { double x = x0 + i * dx, d = y[ i ] - f( x ); r += d; rx += d * x; }
	vp_assert( r == 0, "the residuals of a regression with fixed steps cancel" ); vp_assert( rx == 0, "and are not correlated with x" );
}
DRIVER( c27_regression_mismatch ) { vector< double > x{ 1, 2, 3 }, y{ 1, 2 }; vp_assert( vp_throws( [&] { flut::linear_regression( x, y ); } ) && vp_throws( [&] { flut::linear_regression( y, x ); } ), "lists of different length are an error" ); }
DRIVER( c27_polynomial ) {
	double a = vp_real( "a" ), b = vp_real( "b" ), c = vp_real( "c" ), d = vp_real( "d" ), x = vp_real( "x" ); const flut::linear_function< double > l( a, b ); const flut::quadratic_function< double > q( a, b, c ); const flut::cubic_function< double > k( a, b, c, d );
	vp_assert( l( x ) == a + b * x && q( x ) == a + b * x + c * x * x && k( x ) == a + b * x + c * x * x + d * x * x * x, "a polynomial is the sum of its terms" ); vp_assert( l.offset() == a && l.slope() == b && k[ 0 ] == a && k[ 1 ] == b && k[ 2 ] == c && k[ 3 ] == d, "coefficients" );
	flut::cubic_function< double > m( a, b, c, d ), n( m ); m[ 1 ] = 0; const flut::cubic_function< double > o( n ); n = m; vp_assert( n( x ) == a + c * x * x + d * x * x * x && o( x ) == k( x ), "copies are independent" ); flut::cubic_function< double > few( a, b ); vp_assert( few( x ) == a + b * x, "coefficients that are not given are zero" );
	flut::cubic_function< double > z; vp_assert( z( x ) == 0, "a new polynomial is zero" ); z[ 2 ] = c; vp_assert( z( x ) == c * x * x, "coefficients can be set" );
	vp_assume( b > 0.125 || b < -0.125 ); double y = vp_real( "y" ); double at = flut::intersect_y( l, y ); vp_assert( l( at ) == y, "the intersection of a line with a level" );
}
DRIVER( c27_print ) {
	vector< int > v; int n = vp_choice( "n", 0, 3 ); for ( int i = 0; i < n; ++i ) v.push_back( vp_int( "v", 0, 9 ) ); std::ostringstream s; flut::operator<<( s, v ); std::string e; for ( int i = 0; i < n; ++i ) { if ( i ) e += '\t'; e += char( '0' + v[ i ] ); } e += '\n'; vp_assert( s.str() == e, "a list is printed with tabs between its elements and ends the line" );
}
// ---- larger sizes
DRIVER( c27_size ) {
	int n = vp_size_to( "size", 140, 1100 ); vector< double > v; double x = vp_real_in( "x", -0.5, 0.5 ), s = 0; for ( int i = 0; i < n; ++i ) { double y = i == n / 2 ? x : double( ( i * 37 ) % 211 ) + 1; v.push_back( y ); s += y; } vector< double > c = v; vp_assert( flut::average( v ) * double( n ) == s, "the average of many values" ); flut::math::average a; for ( double y : v ) a.add( y ); vp_assert( a.get() * double( n ) == s, "the running average of many values" );
	auto t = flut::sorted_copy( v ); bool up = t.size() == v.size(); for ( int i = 1; i < n; ++i ) up = up && t[ size_t( i - 1 ) ] <= t[ size_t( i ) ]; vp_assert( up && t[ 0 ] == x && v == c, "many values are sorted" ); auto idx = flut::sort_indices( v ); bool io = idx.size() == v.size(); for ( int i = 1; i < n; ++i ) io = io && v[ idx[ size_t( i - 1 ) ] ] <= v[ idx[ size_t( i ) ] ]; vp_assert( io && idx[ 0 ] == size_t( n / 2 ), "many indices are sorted" );
	vp_assert( flut::median( v ) == ( n % 2 ? t[ size_t( n / 2 ) ] : ( t[ size_t( n / 2 - 1 ) ] + t[ size_t( n / 2 ) ] ) / 2 ), "the median of many values" ); double e = 0; for ( int i = 0; i < n - 1; ++i ) e += t[ size_t( i ) ]; vp_assert( flut::top_average( v, size_t( n - 1 ) ) * double( n - 1 ) == e, "the average of the smallest" ); vp_assert( flut::find_index( v, v[ size_t( n - 1 ) ] ) <= size_t( n - 1 ) && flut::min_element( v ) - v.begin() == n / 2 && flut::find_index( v, -5.0 ) == size_t( -1 ), "searching many values" );
	vector< int > w; std::string p; for ( int i = 0; i < n; ++i ) { w.push_back( i ); if ( i ) p += '\t'; p += std::to_string( i ); } std::ostringstream o; flut::operator<<( o, w ); vp_assert( o.str() == p + "\n", "a long list is printed with every element" );
	vector< double > X; for ( int i = 0; i < n; ++i ) X.push_back( i ); auto f = flut::linear_regression( X, v ); double r = 0, rx = 0; for ( int i = 0; i < n; ++i ) { double d = v[ size_t( i ) ] - f( X[ size_t( i ) ] ); r += d; rx += d * i; } vp_assert( r == 0 && rx == 0, "the regression of many points" ); auto g = flut::linear_regression( 0.0, 1.0, v ); vp_assert( g.slope() == f.slope() && g.offset() == f.offset(), "also with fixed steps" );
}
DRIVER( c27_size_equal ) { int n = vp_size_to( "size", 40, 140 ); double x = vp_real_in( "x", -1, 1 ); vector< double > v( size_t( n ), x ); int at = vp_choice( "other", 0, 2 ); if ( at ) v[ at == 1 ? 0 : size_t( n - 1 ) ] = 2; vector< char > seen( size_t( n ), 0 ); auto idx = flut::sort_indices( v ); bool ok = idx.size() == v.size(); for ( size_t i : idx ) { ok = ok && i < v.size() && !seen[ i ]; if ( ok ) seen[ i ] = 1; } for ( size_t i = 1; ok && i < v.size(); ++i ) ok = v[ idx[ i - 1 ] ] <= v[ idx[ i ] ]; vp_assert( ok, "many equal values are sorted" ); auto s = flut::sorted_copy( v ); vp_assert( s.size() == v.size() && s[ 0 ] == x && s[ size_t( n - 1 ) ] == ( at ? 2 : x ), "also in a copy" ); }
