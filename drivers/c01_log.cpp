#include "vp.h"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include <memory>
using namespace flut;
typedef log::level L;
struct rec : public log::sink {
	rec( L l ) : log::sink( l ), n( 0 ), last( log::never_log_level ) {}
	virtual void send_log_message( L l, const string& m ) override { ++n; last = l; msg = m; }
	int n; L last; string msg;
};
static L any_level( const char* n ) { return (L)vp_int( n, 1, 7 ); }        // thresholds: trace .. never
static L msg_level( const char* n ) { return (L)vp_int( n, 1, 6 ); }        // messages: trace .. critical
static void expect( rec& r, L threshold, L l, const char* text ) {
	if ( l >= threshold ) { vp_assert( r.n == 1, "a sink that admits the message receives it exactly once" ); vp_assert( r.last == l, "the message arrives with its own level" ); vp_assert( r.msg == text, "the message arrives with its own text" ); }
	else vp_assert( r.n == 0, "a sink with a higher threshold does not receive the message" );
	r.n = 0; r.msg.clear();
}
static void send_any( L l ) {
	switch ( vp_choice( "call", 0, 3 ) ) {
	case 0: log::message( l, "m", 1, "x" ); break;
	case 1: log::messagef( l, "%s%dx", "m", 1 ); break;
	case 2: log::log_string( l, "m1x" ); break;
	case 3: { std::stringstream s; log::log_stream( l, s, "m", 1, "x" ); break; }
	}
}
DRIVER( c01_two_sinks ) {
	L a = any_level( "threshold a" ), b = any_level( "threshold b" ), l = msg_level( "message level" );
	rec s1( a ), s2( b );
	send_any( l );
	vp_reach( "sent" );
	expect( s1, a, l, "m1x" ); expect( s2, b, l, "m1x" );
}
// thresholds changed after construction, one sink at a time or all at once
DRIVER( c01_set_level ) {
	L a = any_level( "threshold a" ), b = any_level( "threshold b" ), c = any_level( "new threshold" ), l = msg_level( "message level" );
	rec s1( a ), s2( b );
	switch ( vp_choice( "change", 0, 3 ) ) {
	case 0: s1.set_log_level( c ); a = c; break;
	case 1: s2.set_log_level( c ); b = c; break;
	case 2: log::set_global_log_level( c ); a = b = c; break;
	case 3: log::set_global_log_level( c ); b = c; { L d = any_level( "second threshold" ); s1.set_log_level( d ); a = d; } break;
	}
	log::message( l, "m1x" );
	vp_assert( s1.get_log_level() == a && s2.get_log_level() == b, "each sink keeps the threshold it was given" );
	expect( s1, a, l, "m1x" ); expect( s2, b, l, "m1x" );
}
// sinks created and destroyed in between
DRIVER( c01_lifetime ) {
	L a = any_level( "threshold a" ), b = any_level( "threshold b" ), c = any_level( "threshold c" ), l = msg_level( "message level" );
	std::unique_ptr<rec> s1( new rec( a ) ), s2( new rec( b ) ), s3;
	int order = vp_choice( "order", 0, 4 );
	if ( order == 0 ) s1.reset();
	else if ( order == 1 ) s2.reset();
	else if ( order == 2 ) { s1.reset(); s3.reset( new rec( c ) ); }
	else if ( order == 3 ) { s3.reset( new rec( c ) ); s2.reset(); }
	else { s1.reset(); s2.reset(); }
	log::message( l, "m1x" );
	if ( s1 ) expect( *s1, a, l, "m1x" );
	if ( s2 ) expect( *s2, b, l, "m1x" );
	if ( s3 ) expect( *s3, c, l, "m1x" );
}
DRIVER( c01_add_remove ) {
	L a = any_level( "threshold a" ), b = any_level( "threshold b" ), l = msg_level( "message level" );
	rec s1( a ), s2( b );
	int k = vp_choice( "change", 0, 4 ); bool r1 = true, r2 = true;
	if ( k == 0 ) log::add_sink( &s1 );                                           // already registered
	else if ( k == 1 ) { log::remove_sink( &s1 ); r1 = false; }
	else if ( k == 2 ) { log::remove_sink( &s1 ); log::remove_sink( &s1 ); r1 = false; }
	else if ( k == 3 ) { log::remove_sink( &s1 ); log::add_sink( &s1 ); }
	else { log::remove_sink( &s2 ); log::remove_sink( &s1 ); log::add_sink( &s2 ); r1 = false; }
	log::message( l, "m1x" );
	if ( r1 ) expect( s1, a, l, "m1x" ); else vp_assert( s1.n == 0, "a removed sink receives nothing" );
	if ( r2 ) expect( s2, b, l, "m1x" );
	bool some = ( r1 && l >= a ) || ( r2 && l >= b ); if ( some ) vp_assert( log::test_log_level( l ), "a level that some sink admits passes the level test" ); else if ( l < log::critical_level ) vp_assert( !log::test_log_level( l ), "a level that no registered sink admits is filtered" );
}
// the global level is the lowest threshold of the registered sinks, and the test agrees with delivery
DRIVER( c01_global_level ) {
	L a = any_level( "threshold a" ), b = any_level( "threshold b" ), l = msg_level( "message level" );
	rec s1( a ), s2( b );
	L c = any_level( "new threshold" );
	int k = vp_choice( "change", 0, 2 );
	if ( k == 0 ) { s1.set_log_level( c ); a = c; } else if ( k == 1 ) { log::set_global_log_level( c ); a = b = c; }
	if ( l >= a || l >= b ) vp_assert( log::test_log_level( l ), "a level that some sink admits passes the level test" );
	else if ( l < log::critical_level ) vp_assert( !log::test_log_level( l ), "a level that no sink admits is filtered before formatting" );
	L g = log::get_global_log_level(); L m = a < b ? a : b;
	if ( m <= log::critical_level ) vp_assert( g == m, "the global level is the lowest threshold of the registered sinks" );
}
// a null sink is refused; messages without sinks are harmless
DRIVER( c01_none ) {
	log::message( msg_level( "message level" ), "x" ); log::info( "x" ); log::criticalf( "%d", 3 );
	vp_assert( vp_throws( [] { log::add_sink( nullptr ); } ), "a null sink is refused" );
	rec s( log::trace_level ); log::message( log::critical_level, "a" ); vp_assert( s.n == 1, "logging goes on after a refused sink" );
}
// long formatted messages arrive in full
DRIVER( c01_long ) {
	rec s( log::trace_level );
	string t( 1500, 'y' );
	log::infof( "%s!", t.c_str() );
	vp_assert( s.n == 1 && s.msg.size() == 1501 && s.msg[ 1500 ] == '!' && s.msg[ 1023 ] == 'y', "long formatted messages are delivered in full" );
}
// ---- larger sizes
// many sinks, many messages, long texts
DRIVER( c01_size_sinks ) {
	int n = vp_size_to( "sinks", 140, 1100 ); std::vector< std::unique_ptr< rec > > s; for ( int i = 0; i < n; ++i ) s.emplace_back( new rec( i == n - 2 ? log::trace_level : log::info_level ) );
	log::trace( "m" ); for ( int i = 0; i < n; ++i ) vp_assert( s[ i ]->n == ( i == n - 2 ), "only the sinks that admit the message receive it" );
	int gone = vp_choice( "gone", 0, 1 ) ? 1 : n - 2; s[ gone ].reset(); log::message( log::info_level, "x" ); for ( int i = 0; i < n; ++i ) if ( i != gone ) vp_assert( s[ i ]->n == ( i == n - 2 ? 2 : 1 ) && s[ i ]->msg == "x", "all remaining sinks receive the message" );
	log::trace( "y" ); for ( int i = 0; i < n; ++i ) if ( i != gone ) vp_assert( s[ i ]->n == ( i == n - 2 ? 3 : 1 ), "removing a sink leaves the thresholds of the others" );
}
DRIVER( c01_size_messages ) {
	int n = vp_size_to( "messages", 1100, 1100 ); L t = any_level( "threshold" ); rec s( t ); int got = 0;
	for ( int i = 0; i < n; ++i ) { L l = L( 1 + i % 6 ); if ( i % 2 ) log::message( l, "m" ); else log::messagef( l, "%s", "m" ); if ( l >= t ) ++got; }
	vp_assert( s.n == got, "every message that is admitted arrives, however many were sent" );
}
DRIVER( c01_size_text ) {
	int n = vp_size_to( "length", 1100, 70000 ); rec s( log::trace_level ); string t = vp_long_text( "c", n, n - 1, "a%\n\\ " ); log::message( log::info_level, t ); vp_assert( s.n == 1 && s.msg == t, "a message of any length arrives unchanged" );
	log::infof( "%s", t.c_str() ); vp_assert( s.n == 2 && s.msg == t, "a formatted message of any length arrives unchanged" ); log::info( t, 7, t ); vp_assert( s.n == 3 && s.msg == t + "7" + t, "a message of several parts arrives unchanged" );
}
// texts without anything in them, and with anything in them, are messages too
DRIVER( c01_texts ) {
	L t = any_level( "threshold" ), l = msg_level( "message level" ); rec s( t ); string m = vp_any_string( "text", 3 );
	switch ( vp_choice( "call", 0, 6 ) ) {
	case 0: log::message( l, m ); break;
	case 1: log::log_string( l, m ); break;
	case 2: { std::stringstream str; log::log_stream( l, str, m ); break; }
	case 3: if ( m.find( '\0' ) != string::npos ) m = "x"; log::messagef( l, "%s", m.c_str() ); break;
	case 4: m = ""; log::message( l, m, "", m ); break;
	case 5: m = ""; log::messagef( l, "" ); break;
	case 6: m = "\n"; log::messagef( l, "\n" ); break;
	}
	if ( l >= t ) vp_assert( s.n == 1 && s.last == l && s.msg == m, "a message of any text, an empty one as well, arrives once and unchanged" );
	else vp_assert( s.n == 0, "a message below the threshold does not arrive, whatever its text" );
}
// the same message twice is two messages
DRIVER( c01_repeat ) {
	L t = any_level( "threshold" ), l = msg_level( "message level" ), l2 = msg_level( "second level" ); rec s( t );
	log::message( l, "m" ); log::message( l, "m" ); log::message( l2, "m" );
	vp_assert( s.n == ( l >= t ? 2 : 0 ) + ( l2 >= t ? 1 : 0 ), "equal messages are all delivered" );
}
