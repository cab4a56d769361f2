// time measurement
#include "vp.h"
#include <chrono>
#include "flut/timer.hpp"
#include "flut/stopwatch.hpp"
#include "flut/system/profiler.hpp"
using std::string;
static long now() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
DRIVER( c31_elapsed ) {
	long a = now(); flut::timer t; if ( vp_choice( "reset", 0, 1 ) ) { t.nanoseconds(); a = now(); t.reset(); } long b = now(); long n = t.nanoseconds(); long c = now();
	vp_assert( n >= 0 && n <= c - a, "the elapsed time is not negative and not more than has passed" ); long m = t.nanoseconds(); vp_assert( m >= n, "time does not go backwards" ); long d = now(), k = t.ticks(), e = now(); vp_assert( k >= d - b && k <= e - a, "the elapsed time is at least the time since the start" );
}
DRIVER( c31_units ) {
	long start = vp_choice( "start", 0, 1 ) ? 5000000000 : 0; static const long ns[] = { 0, 1, 999, 1000000, 1500000000, 3600000000000, 86400000000000 * 30, 1234567, 1999999, 1234567891234, 59999999999 }; long n = ns[ vp_choice( "elapsed", 0, 10 ) ]; vp_clock( start, 0 ); flut::timer t; vp_clock( start + n, 0 );
	vp_assert( t.nanoseconds() == n && t.microseconds() == n / 1000 && t.milliseconds() == n / 1000000, "whole units are rounded down" ); double s = t.seconds(), m = t.minutes(), h = t.hours(); auto near = []( double x, double y ) { return x - y <= 1e-6 * ( 1 + y ) && y - x <= 1e-6 * ( 1 + y ); }; vp_assert( near( s * 1e9, double( n ) ) && near( m * 60e9, double( n ) ) && near( h * 3600e9, double( n ) ), "seconds, minutes and hours" );
	t.reset(); vp_assert( t.nanoseconds() == 0, "a reset timer starts at zero" ); vp_clock( start + n + 7, 0 ); vp_assert( t.nanoseconds() == 7, "and goes on from there" );
}
static double num( const flut::prop_node& p ) { return std::stod( p.get_value() ); }
DRIVER( c31_stopwatch ) {
	long at = 1000; vp_clock( at, 0 ); flut::stopwatch w; static const char* names[] = { "x", "y", "z" }; double sum[ 3 ] = { 0, 0, 0 }; int order[ 3 ], seen = 0, n = vp_choice( "measures", 1, 3 );
	for ( int i = 0; i < n; ++i ) { int k = vp_choice( "name", 0, 2 ), s = vp_choice( "half seconds", 1, 2 ); at += s * 500000000l; vp_clock( at, 0 ); bool known = false; for ( int j = 0; j < seen; ++j ) known |= order[ j ] == k; if ( !known ) order[ seen++ ] = k; sum[ k ] += s * 0.5; w.add_measure( names[ k ] ); }
	flut::prop_node r = w.get_report(); vp_assert( r.size() == size_t( seen + 1 ), "one entry for each name, and the internal time" ); size_t i = 0; for ( auto& e : r ) { if ( i < size_t( seen ) ) vp_assert( e.first == names[ order[ i ] ] && num( e.second ) == sum[ order[ i ] ], "measures with the same name are added up, in order of their first use" ); else vp_assert( e.first == "internal" && num( e.second ) == 0, "the time taken by measuring comes last" ); ++i; }
}
DRIVER( c31_stopwatch_restart ) { vp_clock( 0, 0 ); flut::stopwatch w; vp_clock( 3000000000, 0 ); w.start_first_measure(); vp_clock( 5000000000, 0 ); w.add_measure( "a" ); flut::prop_node r = w.get_report(); vp_assert( num( r.get_child( "a" ) ) == 2, "the first measure starts where it is told to" ); }
DRIVER( c31_stopwatch_internal ) { vp_clock( 0, 1000000000 ); flut::stopwatch w; w.add_measure( "a" ); w.add_measure( "b" ); flut::prop_node r = w.get_report(); vp_assert( num( r.get_child( "a" ) ) == 1 && num( r.get_child( "b" ) ) == 1 && num( r.get_child( "internal" ) ) == 2, "the time taken by measuring is kept apart" ); }
DRIVER( c31_stopwatch_precision ) { static const double xs[] = { 1.0 / 3, 2.5, 123456.789, 1e-7 }; double x = xs[ vp_choice( "x", 0, 3 ) ]; string a = flut::to_str( x ); int p = flut::to_str_precision(); vp_clock( 0, 0 ); flut::stopwatch w; vp_clock( 1234567890, 0 ); w.add_measure( "a" ); flut::prop_node r = vp_choice( "decimals", 0, 1 ) ? w.get_report( 2 ) : w.get_report(); vp_assert( flut::to_str( x ) == a && flut::to_str_precision() == p, "a report does not change how numbers are written" ); flut::prop_node q = w.get_report(); flut::prop_node s = w.get_report(); vp_assert( q == s && num( q.get_child( "a" ) ) > 1.2 && num( q.get_child( "a" ) ) < 1.3, "reporting changes nothing" ); }
static flut::profiler& P() { return flut::profiler::instance(); }
static double ms( const flut::prop_node& n ) { return std::stod( n.get_value() ); }
DRIVER( c31_profile_name ) {
	static char first[] = "same", second[] = "same", other[] = "sane"; vp_clock( 0, 0 ); P().reset(); long at = 0, t = 0, o = 0; int n = vp_choice( "sections", 1, 3 ); for ( int i = 0; i < n; ++i ) { int k = vp_choice( "name", 0, 2 ), d = 1 + 2 * i; P().start_section( k == 0 ? first : k == 1 ? second : other ); at += d * 1000000l; vp_clock( at, 0 ); P().end_section(); ( k == 2 ? o : t ) += d; }
	flut::prop_node r = P().report(); const flut::prop_node& c = r.get_child( "TOTAL" ); vp_assert( c.size() == size_t( ( t > 0 ) + ( o > 0 ) ), "sections with the same name are one section" ); if ( t ) vp_assert( ms( c.get_child( "same" ) ) == t, "which is given the time of all of them" ); if ( o ) vp_assert( ms( c.get_child( "sane" ) ) == o, "and no other" );
}
DRIVER( c31_profile ) {
	static const char *A = "A", *B = "B"; vp_clock( 0, 0 ); P().reset(); long at = 0; long ta = 0, tb = 0, tab = 0; int n = vp_choice( "sections", 1, 3 );
	for ( int i = 0; i < n; ++i ) { int kind = vp_choice( "kind", 0, 2 ), d = vp_choice( "ms", 1, 2 ); auto go = [&]( int k ) { at += k * 1000000l; vp_clock( at, 0 ); };
		if ( kind == 0 ) { P().start_section( A ); go( d ); P().end_section(); ta += d; } else if ( kind == 1 ) { P().start_section( B ); go( d ); P().end_section(); tb += d; } else { P().start_section( A ); go( d ); P().start_section( B ); go( 1 ); P().end_section(); go( 1 ); P().end_section(); ta += d + 2; tab += 1; } go( 1 ); }
	flut::prop_node r = P().report(); vp_assert( r.size() == 1 && r.has_key( "TOTAL" ), "one report for everything" ); const flut::prop_node& t = r.get_child( "TOTAL" ); vp_assert( ms( t ) == at / 1000000, "the total time" ); vp_assert( t.size() == size_t( ( ta > 0 ) + ( tb > 0 ) ), "one entry for each section used" );
	if ( ta ) { vp_assert( t.has_key( "A" ) && ms( t.get_child( "A" ) ) == ta, "a section is given the time spent in it, in all its calls" ); vp_assert( t.get_child( "A" ).size() == size_t( tab > 0 ), "nested sections are listed under the section they were called from" ); if ( tab ) vp_assert( ms( t.get_child( "A" ).get_child( "B" ) ) == tab, "with the time spent there" ); }
	if ( tb ) vp_assert( ms( t.get_child( "B" ) ) == tb && t.get_child( "B" ).size() == 0, "and are kept apart from the same section called elsewhere" );
	if ( ta && tb && ta != tb ) vp_assert( ( t.begin()->first == "A" ) == ( ta > tb ), "the longest section comes first" );
}
DRIVER( c31_profile_misuse ) { vp_clock( 0, 0 ); P().reset(); vp_assert( vp_throws( [] { P().end_section(); } ), "ending a section that was not started is an error" ); { flut::scoped_section_profiler s( "S" ); vp_clock( 4000000, 0 ); } vp_assert( vp_throws( [] { P().end_section(); } ), "a scope ends its section" ); flut::prop_node r = P().report(); vp_assert( ms( r.get_child( "TOTAL" ).get_child( "S" ) ) == 4, "and counts its time" ); P().reset(); vp_clock( 5000000, 0 ); flut::prop_node q = P().report(); vp_assert( q.get_child( "TOTAL" ).size() == 0 && ms( q.get_child( "TOTAL" ) ) == 1, "a reset profile is empty" ); }
DRIVER( c31_profile_growth ) { static const char* names[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i" }; vp_clock( 0, 0 ); P().reset(); long at = 0; for ( int i = 0; i < 9; ++i ) { P().start_section( names[ i ] ); vp_clock( at += 1000000, 0 ); } for ( int i = 0; i < 9; ++i ) P().end_section(); flut::prop_node r = P().report(); const flut::prop_node* n = &r.get_child( "TOTAL" ); for ( int i = 0; i < 9; ++i ) { n = &n->get_child( names[ i ] ); vp_assert( ms( *n ) == 9 - i, "deeply nested sections keep their times" ); } }
DRIVER( c31_profile_relative ) { static const char *A = "A", *B = "B"; vp_clock( 0, 0 ); P().reset(); P().start_section( A ); vp_clock( 1000000, 0 ); P().start_section( B ); vp_clock( 2000000, 0 ); P().end_section(); P().end_section(); vp_clock( 4000000, 0 ); flut::prop_node r = P().report(); string a = r.get_child( "TOTAL" ).get_child( "A" ).get_value(); vp_assert( a.find( " 50.00% (25.00% exclusive" ) != string::npos, "percentages are of the total time, exclusive ones without nested sections" ); }
DRIVER( c31_profile_exclusive ) { static const char *A = "A", *B = "B", *C = "C"; vp_clock( 0, 0 ); P().reset(); P().start_section( A ); vp_clock( 1000000, 0 ); P().start_section( B ); vp_clock( 2000000, 0 ); P().start_section( C ); vp_clock( 4000000, 0 ); P().end_section(); P().end_section(); vp_clock( 5000000, 0 ); P().end_section(); vp_clock( 8000000, 0 ); flut::prop_node r = P().report(); const flut::prop_node& a = r.get_child( "TOTAL" ).get_child( "A" ); const flut::prop_node& b = a.get_child( "B" );
	vp_assert( r.get_child( "TOTAL" ).get_value().find( "(37.50% exclusive" ) != string::npos && a.get_value().find( " 62.50% (25.00% exclusive" ) != string::npos && b.get_value().find( " 37.50% (12.50% exclusive" ) != string::npos && b.get_child( "C" ).get_value().find( " 25.00% (25.00% exclusive" ) != string::npos, "exclusive time is without everything nested, however deep, and counted once" ); }
DRIVER( c31_profile_section ) { static const char* A = "A"; vp_clock( 0, 0 ); P().reset(); long at = 0, sum = 0; int n = vp_choice( "times", 1, 3 ); for ( int i = 0; i < n; ++i ) { at += vp_choice( "pause", 0, 1 ) * 1000; vp_clock( at, 0 ); auto* s = P().start_section( A ); long d = vp_choice( "time", 0, 2 ) * 777; at += d; sum += d; vp_clock( at, 0 ); P().end_section(); vp_assert( s->total_time == sum, "a section holds the sum of its intervals, to the nanosecond" ); } }
static double overhead( const flut::prop_node& n ) { string s = n.get_value(); size_t p = s.find( "exclusive" ); return std::stod( s.substr( p + 9 ) ) * ms( n ) / 100; }
DRIVER( c31_profile_overhead ) { vp_clock( 0, 1000000 ); P().reset(); static const char* N[] = { "a", "b", "c", "d" }; int n = vp_choice( "depth", 1, 4 ); for ( int i = 0; i < n; ++i ) P().start_section( N[ i ] ); for ( int i = 0; i < n; ++i ) P().end_section(); flut::prop_node r = P().report(); const flut::prop_node* t = &r.get_child( "TOTAL" ); for ( int i = 0; i < n; ++i ) { const flut::prop_node* c = &t->get_child( N[ i ] ); vp_assert( overhead( *c ) > 0, "measuring takes time" ); vp_assert( overhead( *t ) > overhead( *c ) - 0.01, "the overhead of a section includes that of the sections in it, however deep" ); t = c; } }
DRIVER( c31_profile_again ) { vp_clock( 0, 0 ); P().reset(); long at = 0; int n = vp_choice( "reports", 1, 3 ), k = 0; for ( int i = 0; i < n; ++i ) { if ( vp_choice( "section", 0, 1 ) ) { P().start_section( "s" ); vp_clock( at += 2000000, 0 ); P().end_section(); k += 2; } vp_clock( at += 1000000, 0 ); flut::prop_node r = P().report(); const flut::prop_node& t = r.get_child( "TOTAL" ); vp_assert( ms( t ) == at / 1000000, "every report is of the time until then" ); vp_assert( t.size() == size_t( k > 0 ), "and of the sections until then" ); if ( k ) vp_assert( ms( t.get_child( "s" ) ) == k, "with all their time" ); } }
// ---- larger sizes
DRIVER( c31_size ) {
	int n = vp_size_to( "size", 140, 1100 ); static const char* N[] = { "a", "b", "c", "d", "e" }; vp_clock( 0, 0 ); P().reset(); long at = 0, t[ 5 ] = {}; for ( int i = 0; i < n; ++i ) { P().start_section( N[ i % 5 ] ); vp_clock( at += ( i % 3 + 1 ) * 1000000l, 0 ); t[ i % 5 ] += i % 3 + 1; P().end_section(); } flut::prop_node r = P().report(); const flut::prop_node& T = r.get_child( "TOTAL" ); vp_assert( ms( T ) == at / 1000000, "the total time" ); for ( int k = 0; k < 5; ++k ) vp_assert( ms( T.get_child( N[ k ] ) ) == t[ k ], "a section is given the time of all its many calls" );
	vp_clock( 0, 0 ); at = 0; flut::stopwatch w; for ( int i = 0; i < n; ++i ) { vp_clock( at += 1000000000l, 0 ); w.add_measure( "m" + std::to_string( i % ( n - 1 ) ) ); } flut::prop_node q = w.get_report(); bool ok = q.size() == size_t( n ); for ( int i = 0; ok && i < n - 1; ++i ) ok = num( q.get_child( size_t( i ) ) ) == ( i == 0 ? 2 : 1 ); vp_assert( ok, "every one of many measures is reported" );
}
DRIVER( c31_size_nested ) { int n = vp_size_to( "depth", 40, 90 ); static char names[ 200 ][ 4 ]; for ( int i = 0; i < n; ++i ) { names[ i ][ 0 ] = char( 'a' + i / 26 ); names[ i ][ 1 ] = char( 'a' + i % 26 ); names[ i ][ 2 ] = 0; } vp_clock( 0, 0 ); P().reset(); long at = 0; for ( int i = 0; i < n; ++i ) { P().start_section( names[ i ] ); vp_clock( at += 1000000, 0 ); } for ( int i = 0; i < n; ++i ) P().end_section(); flut::prop_node r = P().report(); const flut::prop_node* t = &r.get_child( "TOTAL" ); for ( int i = 0; i < n; ++i ) { vp_assert( t->size() == 1 && t->has_key( names[ i ] ), "sections nested to any depth are listed within their parents" ); t = &t->get_child( names[ i ] ); vp_assert( ms( *t ) == n - i, "with the time spent in them" ); } }
