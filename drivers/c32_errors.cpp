// error reports and checks in every build configuration
#include "vp.h"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/system/error_code.hpp"
using std::string;
static bool asserts =
#if FLUT_USE_ASSERT
	true;
#else
	false;
#endif
// run a report that has to fire exactly when `expected`; afterwards nothing may continue when it had to fire
#if FLUT_USE_EXCEPTIONS
template< typename F > void fires( bool expected, const string& text, F f ) {
	bool thrown = false; string msg; bool other = false;
	try { f(); } catch ( std::exception& e ) { thrown = true; msg = e.what(); } catch ( ... ) { other = true; }
	vp_assert( !other, "errors are standard exceptions" );
	vp_assert( thrown == expected, "an error is reported exactly when its condition says so" );
	if ( thrown ) vp_assert( msg.find( text ) != string::npos, "the report contains its message" );
}
#else
template< typename F > void fires( bool expected, const string&, F f ) {
	vp_exit_when( expected, "the program ends only because of an error" ); f(); vp_assert( !expected, "the program does not go on after an error" );
}
#endif
DRIVER( c32_error ) { string m = vp_any_string_in( "message", 2, "ab %" ); switch ( vp_choice( "form", 0, 2 ) ) { case 0: fires( true, m, [&] { flut_error( m ); } ); break; case 1: fires( true, "text", [&] { flut_error( "text" ); } ); break; case 2: fires( true, "c32", [&] { struct c32_todo { static void c32_missing() { FLUT_NOT_IMPLEMENTED } }; c32_todo::c32_missing(); } ); break; } }
DRIVER( c32_error_if ) { int a = vp_int( "a", -2, 2 ), b = vp_int( "b", -2, 2 ); fires( a > b, "bad a", [&] { flut_error_if( a > b, "bad a" ); } ); fires( a || b, "any", [&] { flut_error_if( a || b, string( "any" ) ); } ); fires( a ? b == 1 : b == 2, "cond", [&] { flut_error_if( a ? b == 1 : b == 2, "cond" ); } ); }
DRIVER( c32_validate ) { int a = vp_int( "a", -2, 2 ), b = vp_int( "b", -2, 2 ); fires( !( a > b ), "a > b", [&] { flut_validate( a > b ); } ); fires( !( a || b ), "why", [&] { flut_validate_msg( a || b, "why" ); } ); fires( !( a ? b == 1 : b == 2 ), "b == 2", [&] { flut_validate( a ? b == 1 : b == 2 ); } ); }
DRIVER( c32_assert ) { int a = vp_int( "a", -2, 2 ), b = vp_int( "b", -2, 2 ); fires( asserts && !( a > b ), "a > b", [&] { flut_assert( a > b ); } ); fires( asserts && !( a || b ), "why", [&] { flut_assert_msg( a || b, "why" ); } ); }
DRIVER( c32_else ) { // a report is one statement: a following else belongs to the if around it
	int a = vp_int( "a", 0, 1 ), b = vp_int( "b", 0, 1 ), r = 0;
	auto check = [&]( int k ) { r = 0;
		switch ( k ) {
		case 0: if ( a ) flut_error_if( b, "x" ); else r = 1; break;
		case 1: if ( a ) flut_validate( !b ); else r = 1; break;
		case 2: if ( a ) flut_validate_msg( !b, "x" ); else r = 1; break;
		case 3: if ( a ) flut_assert( !b ); else r = 1; break;
		case 4: if ( a ) flut_assert_msg( !b, "x" ); else r = 1; break;
		case 5: if ( a && b ) flut_error( "x" ); else r = a ? 0 : 1; break;
		}
	};
	int k = vp_choice( "report", 0, 5 ); bool fire = a && b && ( asserts || ( k != 3 && k != 4 ) );
	fires( fire, "", [&] { check( k ); } );
	if ( !fire ) vp_assert( r == !a, "an else after a report belongs to the if before it" );
}
DRIVER( c32_once ) { // conditions are evaluated once, messages only when needed
	int n = 0, m = 0; int a = vp_int( "a", 0, 1 ); auto cond = [&] { ++n; return a != 0; }; auto msg = [&] { ++m; return string( "msg" ); }; 
	int k = vp_choice( "report", 0, 2 );
	auto run = [&] { switch ( k ) { case 0: flut_error_if( cond(), msg() ); break; case 1: flut_validate_msg( !cond(), msg() ); break; case 2: flut_validate( !cond() ); break; } };
	fires( a, k < 2 ? "msg" : "", run ); vp_assert( n == 1, "a condition is evaluated once" ); vp_assert( m == ( a && k < 2 ), "a message is made only for an error" );
}
DRIVER( c32_error_code ) {
	flut::error_code e; vp_assert( e.ok() && !e.error() && e.code() == 0 && e.message().empty() && flut::no_error().ok(), "no error at first" ); int n = vp_choice( "times", 1, 2 );
	for ( int i = 0; i < n; ++i ) { int c = vp_int( "code", -5, 5 ); string m = vp_any_string_in( "message", 1, "ab" ); e.set( c, m ); vp_assert( e.code() == c && e.error() == ( c != 0 ) && e.ok() == ( c == 0 ) && e.message() == m, "an error code keeps what it was given last" ); }
	e.set( 7 ); vp_assert( e.code() == 7 && e.message().empty(), "a message may be left out" ); vp_assert( flut::error( "x" ).error() && flut::error( "x" ).message() == "x", "an error made from a message is an error" ); flut::error_code f; vp_assert( flut::try_set_error( &f, "m" ) && f.error() && f.message() == "m" && !flut::try_set_error( nullptr, "m" ), "an error is set exactly when there is somewhere to set it" );
}
