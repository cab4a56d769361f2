// random numbers: repeatable, in range, one global generator
#include "vp.h"
#include "flut/math/random.hpp"
using namespace flut;
using flut::math::random_number_generator;
static unsigned any_seed( const char* l ) { static const unsigned s[] = { 0, 1, 5, 123, 2147483646u, 2147483647u, 4294967295u }; return s[ vp_choice( l, 0, 6 ) ]; }
template< typename T > static T draw( random_number_generator& g, int kind, T a, T b ) { return kind ? g.norm( a, b ) : g.uni( a, b ); }
DRIVER( c33_repeat ) {
	unsigned s = any_seed( "seed" ); double lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi && hi > 0 );
	random_number_generator a( s ), b( s ); int k1 = vp_choice( "kind", 0, 1 ), k2 = vp_choice( "kind", 0, 1 ), k3 = vp_choice( "kind", 0, 1 );
	double a1 = draw( a, k1, lo, hi ), b1 = draw( b, k1, lo, hi ); float a2 = draw< float >( a, k2, 1, 2 ), b2 = draw< float >( b, k2, 1, 2 ); double a3 = draw( a, k3, lo, hi ), b3 = draw( b, k3, lo, hi );
	vp_assert( a1 == b1 && a2 == b2 && a3 == b3, "generators with the same seed give the same numbers" );
	a.seed( s ); vp_assert( draw( a, k1, lo, hi ) == a1 && draw< float >( a, k2, 1, 2 ) == a2 && draw( a, k3, lo, hi ) == a3, "a generator that is seeded again starts again" );
	random_number_generator c( b ); vp_assert( draw( b, k1, lo, hi ) == draw( c, k1, lo, hi ), "a copy continues with the same numbers" );
	c = a; vp_assert( draw( a, k2, lo, hi ) == draw( c, k2, lo, hi ), "also when assigned" );
}
DRIVER( c33_range ) {
	double lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi ); random_number_generator g( any_seed( "seed" ) );
	for ( int i = 0; i < 3; ++i ) { double x = g.uni( lo, hi ); vp_assert( lo <= x && x < hi, "a uniform number lies within its limits" ); double u = g.uni< double >(); vp_assert( 0 <= u && u < 1, "without limits between zero and one" ); float f = g.uni< float >(); vp_assert( 0 <= f && f < 1, "also in single precision" ); float h = g.uni< float >( -3 ); vp_assert( -3 <= h && h < 1, "with a lower limit only" ); }
	double x = rand_uni( lo, hi ); vp_assert( lo <= x && x < hi, "also from the global generator" );
}
DRIVER( c33_every ) { // the whole range is used: a uniform number is the low limit plus the same share of the range for all limits
	unsigned s = any_seed( "seed" ); double lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi ); random_number_generator a( s ), b( s );
	double u = a.uni< double >( 0, 1 ); vp_assert( b.uni( lo, hi ) == lo + u * ( hi - lo ), "the limits scale the number" );
	double m = vp_real( "mean" ), d = vp_real( "deviation" ); vp_assume( d > 0 ); a.seed( s ); b.seed( s );
	double z = a.norm< double >( 0, 1 ); vp_assert( b.norm( m, d ) == m + z * d, "mean and deviation scale a normal number" );
}
DRIVER( c33_advance ) { // every number uses the generator up: three numbers in a row come from different states
	random_number_generator g( any_seed( "seed" ) ); int k = vp_choice( "kind", 0, 3 );
	double x[ 3 ]; for ( int i = 0; i < 3; ++i ) x[ i ] = k == 0 ? g.uni< double >( 0, 1 ) : k == 1 ? g.norm< double >( 0, 1 ) : k == 2 ? double( g.uni< float >( 0, 1 ) ) : double( g.norm< float >( 0, 1 ) );
	vp_can( x[ 0 ] != x[ 1 ], "numbers in a row can differ" ); vp_can( x[ 1 ] != x[ 2 ], "numbers in a row can differ" ); vp_can( x[ 0 ] != x[ 2 ], "numbers in a row can differ" );
	random_number_generator a( 1 ), b( 2 ); vp_can( a.uni< double >() != b.uni< double >(), "other seeds can give other numbers" ); a.seed( 3 ); b.seed( 4 ); vp_can( a.norm< double >( 0, 1 ) != b.norm< double >( 0, 1 ), "other seeds can give other numbers" );
}
DRIVER( c33_global ) {
	double lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi && hi > 0 );
	random_number_generator& g = random_number_generator::global_instance(); vp_assert( &g == &random_number_generator::global_instance(), "there is one global generator" );
	random_number_generator fresh; vp_assert( rand_uni( lo, hi ) == fresh.uni( lo, hi ) && rand_norm( lo, hi ) == fresh.norm( lo, hi ), "the global generator starts like a new one" );
	vp_assert( g.uni( lo, hi ) == fresh.uni( lo, hi ), "numbers are taken from the global generator" );
	unsigned s = any_seed( "seed" ); g.seed( s ); random_number_generator h( s ); vp_assert( rand_norm( lo, hi ) == h.norm( lo, hi ) && rand_uni( lo, hi ) == h.uni( lo, hi ) && rand_uni( lo, hi ) == h.uni( lo, hi ), "seeding the global generator makes its numbers repeatable" );
}
// ---- larger sizes
DRIVER( c33_size ) { int n = vp_size( "numbers", 20 ); random_number_generator a( 5 ), b( 5 ); double lo = vp_real( "lo" ), hi = vp_real( "hi" ); vp_assume( lo < hi && hi > 0 ); bool in = true, same = true; for ( int i = 0; i < n; ++i ) { double x = a.uni( 0.0, 1.0 ), y = b.uni( 0.0, 1.0 ); in = in && 0 <= x && x < 1; same = same && x == y; } double z = a.norm( lo, hi ); vp_assert( in && same && z == b.norm( lo, hi ), "long sequences repeat" ); double u = a.uni( lo, hi ); vp_assert( u == b.uni( lo, hi ) && u >= lo && u < hi, "and go on" ); }
