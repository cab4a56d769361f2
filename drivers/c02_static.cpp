#include "vp.h"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
using namespace flut;
typedef log::level L;
struct rec : public log::sink {
	rec( L l ) : log::sink( l ), n( 0 ), last( log::never_log_level ) {}
	virtual void send_log_message( L l, const string& m ) override { ++n; last = l; msg = m; }
	int n; L last; string msg;
};
static void check( rec& r, L t, L own ) {
	bool on = (int)own >= FLUT_STATIC_LOG_LEVEL && own >= t;
	if ( on ) { vp_assert( r.n == 1, "an enabled log call delivers one message" ); vp_assert( r.last == own, "a named log call uses its own level" ); vp_assert( r.msg == "v=7", "a named log call delivers its text" ); }
	else vp_assert( r.n == 0, "a disabled log call delivers nothing" );
	r.n = 0; r.msg.clear();
}
DRIVER( c02_named ) {
	L t = (L)vp_int( "threshold", 1, 7 ); rec r( t );
	switch ( vp_choice( "call", 0, 11 ) ) {
	case 0: log::trace( "v=", 7 ); check( r, t, log::trace_level ); break;
	case 1: log::tracef( "v=%d", 7 ); check( r, t, log::trace_level ); break;
	case 2: log::debug( "v=", 7 ); check( r, t, log::debug_level ); break;
	case 3: log::debugf( "v=%d", 7 ); check( r, t, log::debug_level ); break;
	case 4: log::info( "v=", 7 ); check( r, t, log::info_level ); break;
	case 5: log::infof( "v=%d", 7 ); check( r, t, log::info_level ); break;
	case 6: log::warning( "v=", 7 ); check( r, t, log::warning_level ); break;
	case 7: log::warningf( "v=%d", 7 ); check( r, t, log::warning_level ); break;
	case 8: log::error( "v=", 7 ); check( r, t, log::error_level ); break;
	case 9: log::errorf( "v=%d", 7 ); check( r, t, log::error_level ); break;
	case 10: log::critical( "v=", 7 ); check( r, t, log::critical_level ); break;
	case 11: log::criticalf( "v=%d", 7 ); check( r, t, log::critical_level ); break;
	}
	vp_reach( "call" );
}
DRIVER( c02_order ) {
	vp_assert( log::trace_level < log::debug_level && log::debug_level < log::info_level && log::info_level < log::warning_level && log::warning_level < log::error_level && log::error_level < log::critical_level && log::critical_level < log::never_log_level, "severities are ordered" );
}

// the macros that log variables and calls
static int counted;
static int count_call( int x ) { counted += x; return x; }
DRIVER( c02_macros ) {
	L t = (L)vp_int( "threshold", 1, 7 ); rec r( t ); bool on = (int)log::trace_level >= FLUT_STATIC_LOG_LEVEL && log::trace_level >= t; int alpha = vp_int( "alpha", 0, 9 ), beta = vp_int( "beta", 0, 9 ); string gamma = "g"; char delta = 'd'; counted = 0; string a( 1, char( '0' + alpha ) ), b( 1, char( '0' + beta ) ), want; int n = 1;
	switch ( vp_choice( "macro", 0, 4 ) ) {
	case 0: flut_logvar( alpha ); want = "alpha=" + a; break;
	case 1: flut_logvar2( alpha, beta ); want = "alpha=" + a + "\tbeta=" + b; break;
	case 2: flut_logvar3( alpha, beta, gamma ); want = "alpha=" + a + "\tbeta=" + b + "\tgamma=g"; break;
	case 3: flut_logvar4( alpha, beta, gamma, delta ); want = "alpha=" + a + "\tbeta=" + b + "\tgamma=g\tdelta=d"; break;
	case 4: flut_trace_call( count_call( 3 ) ); want = "<-- count_call( 3 )"; n = 2; vp_assert( counted == 3, "a traced call is made once, whatever is logged" ); break;
	}
	if ( on ) { vp_assert( r.n == n && r.last == log::trace_level, "a logging macro sends its messages at the lowest level" ); vp_assert( r.msg == want, "variables are logged with their names and values" ); }
	else vp_assert( r.n == 0, "a disabled logging macro sends nothing" );
	r.n = 0;
}
DRIVER( c02_periodic ) {
	int k = vp_choice( "interval", 1, 4 ), n = vp_choice( "calls", 1, 9 ), done = 0; for ( int i = 0; i < n; ++i ) flut_do_periodic( k, ++done ); vp_assert( done == ( n + k - 1 ) / k, "a periodic statement runs at the first and then at every so many calls" );
}
DRIVER( c02_periodic_sum ) {
	int k = vp_choice( "interval", 0, 2 ), n = vp_choice( "calls", 1, 9 ), done = 0; for ( int i = 0; i < n; ++i ) flut_do_periodic( k + 1, ++done ); vp_assert( done == ( n + k ) / ( k + 1 ), "also when the interval is an expression" );
}
