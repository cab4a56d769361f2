// versions, hashes, factories, remembered functions, optional values, patterns
#include "vp.h"
#include <cmath>
#include <sstream>
#include "flut/system/version.hpp"
#include "flut/hash.hpp"
#include "flut/factory.hpp"
#include "flut/memoize.hpp"
#include "flut/math/optional.hpp"
#include "flut/interruptible.hpp"
#include "flut/pattern_matcher.hpp"
#include "flut/system/error_code.hpp"
using std::string;
DRIVER( c29_version ) {
	static const int b[] = { 0, 1, 9, 10, 123, 4000 }; int ma = b[ vp_choice( "major", 0, 5 ) ], mi = vp_int( "minor", 0, 9 ), pa = b[ vp_choice( "patch", 0, 5 ) ], bu = vp_choice( "build", 0, 1 ) ? vp_int( "build number", 1, 9 ) : 0; string post = vp_choice( "postfix", 0, 1 ) ? vp_string_in( "postfix", vp_choice( "length", 1, 3 ), "ab1-. " ) : "";
	if ( !post.empty() ) vp_assume( post[ 0 ] != ' ' );
	flut::version v( ma, mi, pa, bu, post ); string t = v.to_str(); string e = std::to_string( ma ) + "." + std::to_string( mi ) + "." + std::to_string( pa ) + ( bu ? "." + std::to_string( bu ) : "" ) + ( post.empty() ? "" : " " + post ); vp_assert( t == e, "a version is written as its numbers with points, then its postfix" );
	std::ostringstream o; o << v; vp_assert( o.str() == t, "also to a stream" );
	flut::version r( t ); vp_assert( r.major == ma && r.minor == mi && r.patch == pa && r.build == bu && r.postfix == post, "a version is read back as written" );
}
DRIVER( c29_version_large ) { static const int b[] = { 1, 255, 256, 999, 1000, 9999, 10000, 65535, 65536, 1000000, 2147483647 }; int k = vp_choice( "which", 0, 3 ), n = b[ vp_choice( "number", 0, 10 ) ]; int c[ 4 ] = { 1, 2, 3, 4 }; c[ k ] = n; flut::version v( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ); string e = std::to_string( c[ 0 ] ) + "." + std::to_string( c[ 1 ] ) + "." + std::to_string( c[ 2 ] ) + "." + std::to_string( c[ 3 ] ); vp_assert( v.to_str() == e, "large numbers are written" ); flut::version r( e ); vp_assert( r.major == c[ 0 ] && r.minor == c[ 1 ] && r.patch == c[ 2 ] && r.build == c[ 3 ], "and read back" ); }
DRIVER( c29_version_short ) { flut::version a( "1.2" ); vp_assert( a.major == 1 && a.minor == 2 && a.patch == 0 && a.build == 0 && a.postfix.empty(), "missing numbers are zero" ); flut::version b( "" ); vp_assert( b.major == 0 && b.minor == 0 && b.patch == 0 && b.build == 0 && b.postfix.empty(), "an empty version is zero" ); flut::version c( 1, 2, 3 ); vp_assert( c.build == 0 && c.postfix.empty() && c.to_str() == "1.2.3", "build and postfix may be left out" ); flut::version d( "3.2.1beta" ); vp_assert( d.patch == 1 && d.build == 0 && d.postfix == "beta", "a postfix directly after the numbers" ); flut::version e( "3.2.1.7 beta" ); vp_assert( e.patch == 1 && e.build == 7 && e.postfix == "beta", "four numbers and a postfix" ); }
DRIVER( c29_hash ) {
	string s = vp_any_string( "s", 4 ); flut::hash_t h = 0xCBF29CE484222325ull; for ( char c : s ) h = ( h ^ flut::hash_t( c ) ) * 0x100000001B3ull;
	vp_assert( flut::hash( s ) == h, "the hash of a text is its FNV-1a hash" ); for ( char c : s ) vp_assume( c != 0 ); vp_assert( flut::hash( s.c_str() ) == h, "also of a text that ends with a null character" ); vp_assert( flut::hash_constexpr( s.c_str() ) == h, "also at compile time" );
}
DRIVER( c29_hash_const ) { constexpr flut::hash_t a = "hello"_hash; static_assert( flut::hash_constexpr( "" ) == 0xCBF29CE484222325ull, "the hash of nothing" ); vp_assert( a == 0xa430d84680aabd0bull && flut::hash( "hello" ) == a && flut::hash( string( "hello" ) ) == a, "literals, texts and compile time agree" ); string e; for ( int c = 128; c < 256; ++c ) { e = char( c ); vp_assert( flut::hash( e ) == flut::hash_constexpr( e.c_str() ), "also for bytes above 127" ); } }
struct base { virtual ~base() {} virtual int id() const = 0; int x = 0; };
template< int N > struct derived : base { derived( int a, int b ) { x = a * 10 + b; } int id() const override { return N; } };
struct plain_type : base { plain_type( int a, int ) { x = a; } int id() const override { return 42; } };
DRIVER( c29_factory ) {
	flut::factory< base, int, int > f; vp_assert( f.empty() && !f.has_type( "a" ), "a new factory is empty" ); vp_assert( vp_throws( [&] { f.create( "a", 1, 2 ); } ) && !f.try_create( "a", 1, 2 ), "an unregistered type is an error" );
	string n1 = vp_any_string_in( "n", 2, "abc" ), n2 = vp_any_string_in( "n", 2, "abc" ), q = vp_any_string_in( "q", 2, "abc" ); f.register_class< derived< 1 > >( n1 ); f.register_class< derived< 2 > >( n2 ); int a = vp_int( "a", 0, 9 ), b = vp_int( "b", 0, 9 ); vp_assert( !f.empty(), "a factory with types is not empty" );
	int want = q == n2 ? 2 : q == n1 ? 1 : 0; vp_assert( f.has_type( q ) == ( want != 0 ), "a type is known when it was registered" );
	if ( want ) { auto p = f.create( q, a, b ); vp_assert( p && p->id() == want && p->x == a * 10 + b, "a factory creates the type registered last under the name, with the arguments" ); auto t = f.try_create( q, a, b ), o = f( q, a, b ), i = f[ q ]( a, b ); vp_assert( t && t->id() == want && t->x == a * 10 + b && o && o->id() == want && o->x == a * 10 + b && i && i->id() == want && i->x == a * 10 + b, "every way of creating agrees" ); }
	else vp_assert( vp_throws( [&] { f.create( q, a, b ); } ) && vp_throws( [&] { f( q, a, b ); } ) && vp_throws( [&] { f[ q ]; } ) && !f.try_create( q, a, b ) && !f.has_type( q ), "an unregistered type is an error and stays unregistered" );
}
DRIVER( c29_factory_name ) { flut::factory< base, int, int > f; f.register_class< plain_type >(); vp_assert( f.has_type( "plain_type" ) && f.create( "plain_type", 3, 0 )->id() == 42, "a type is registered under its own name" ); }
static int calls;
DRIVER( c29_memoize_text ) {
	calls = 0; flut::memoize< int( const std::string&, const int& ) > m( []( const std::string& s, const int& n ) { ++calls; return int( s.size() ) * 10 + n; } ); { std::string a( "a text that is allocated elsewhere" ), b( "b" ); int n = vp_choice( "n", 0, 3 ); vp_assert( m( a, n ) == 340 + n && m( b, n ) == 10 + n && m( a, n ) == 340 + n, "a remembered function of references gives the result of the function" ); vp_assert( calls == 2, "once per argument" ); a[ 0 ] = 'c'; vp_assert( m( a, n ) == 340 + n && calls == 3, "a changed argument is another argument" ); }
	std::string c( "b" ); int k = vp_choice( "k", 0, 3 ), before = calls; vp_assert( m( c, k ) == 10 + k && calls <= before + 1 && m( c, k ) == 10 + k && calls <= before + 1, "also when the arguments are gone" );
}
DRIVER( c29_memoize_error ) { calls = 0; static bool bad; bad = true; flut::memoize< int( int ) > m( []( int a ) { ++calls; if ( bad ) throw 1; return a + 5; } ); int a = vp_int( "a", -9, 9 ), b = vp_int( "b", -9, 9 ); bool thrown = false; try { m( a ); } catch ( int ) { thrown = true; } vp_assert( thrown, "an error of the function is passed on" ); bad = false; vp_assert( m( b ) == b + 5 && m( a ) == a + 5, "and not remembered as a result" ); }
DRIVER( c29_memoize ) {
	calls = 0; flut::memoize< int( int, int ) > m( []( int a, int b ) { ++calls; return a * 100 + b; } ); int n = vp_choice( "n", 1, 3 ); bool seen[ 9 ] = {}; int distinct = 0;
	for ( int i = 0; i < n; ++i ) { int a = vp_choice( "a", 0, 2 ), b = vp_choice( "b", 0, 2 ); if ( !seen[ a * 3 + b ] ) { seen[ a * 3 + b ] = true; ++distinct; } vp_assert( m( a, b ) == a * 100 + b, "a remembered function gives the value of the function" ); vp_assert( calls == distinct, "and computes it once for each argument" ); }
}
DRIVER( c29_optional_int ) {
	flut::optional_int o; vp_assert( !o, "a new optional value is empty" ); int v = vp_int( "v", -100, 100 ); flut::optional_int p( v ); vp_assert( p && *p == v, "an optional value holds its value" ); o = v; vp_assert( o && *o == v, "and the value assigned" ); flut::optional_int c( o ); o = v + 1; vp_assert( c && *c == v && *o == v + 1, "copies are independent" );
	flut::optional_size s; vp_assert( !s, "also for sizes" ); s = size_t( 0 ); vp_assert( s && *s == 0, "zero is a value" ); flut::optional_int z( 0 ); vp_assert( z && *z == 0, "zero is a value for numbers" );
}
DRIVER( c29_optional_real ) { flut::optional_double o; vp_assert( !o, "a new optional number is empty" ); double v = vp_real( "v" ); flut::optional_double p( v ); vp_assert( p && *p == v, "an optional number holds its value" ); o = v; vp_assert( o && *o == v, "and the value assigned" ); flut::optional_float f; vp_assert( !f, "also for short ones" ); f = 0.0f; vp_assert( f && *f == 0, "zero is a number" ); }
DRIVER( c29_optional_any ) { flut::optional< string > o; vp_assert( !o, "a new optional text is empty" ); string v = vp_any_string( "v", 2 ); flut::optional< string > p( v ); vp_assert( p && *p == v, "an optional text holds its text, the empty one too" ); o = v; vp_assert( o && *o == v, "and the text assigned" ); o = string( "x" ); vp_assert( o && *o == "x" && *p == v, "and the text moved in" ); flut::optional< string > c( p ); p = string( "y" ); vp_assert( c && *c == v, "copies are independent" ); }
DRIVER( c29_optional_assigned ) { string v = vp_any_string( "v", 2 ), c = v; flut::optional< string > o; vp_assert( !o, "empty at first" ); o = std::move( v ); vp_assert( o && *o == c, "a text moved into an empty optional value is there" ); flut::optional< string > p, e; p = o; vp_assert( p && *p == c && *o == c, "assigning copies" ); p = e; vp_assert( !p && o, "also the empty one" ); p = std::move( o ); vp_assert( p && *p == c, "and moves" ); }
DRIVER( c29_optional_moved ) { flut::optional< string > t( string( "abc" ) ); vp_assert( t && *t == "abc", "a text moved into a new optional value is there" ); string e; flut::optional< string > z( std::move( e ) ); vp_assert( z && ( *z ).empty(), "also an empty one" ); }
DRIVER( c29_optional_read ) {
	static const char* texts[] = { "12", "-7 3", "x", "", "0" }; int i = vp_choice( "text", 0, 4 ); flut::optional_int o; std::istringstream s( texts[ i ] ); s >> o; bool ok = i != 2 && i != 3; int v = i == 0 ? 12 : i == 1 ? -7 : 0; vp_assert( bool( o ) == ok && ( !ok || *o == v ), "reading fills an optional value only if there is one" );
	flut::optional_int q; flut::char_stream c( texts[ i ] ); c >> q; vp_assert( bool( q ) == ok && ( !ok || *q == v ), "also from a character stream" ); flut::optional_int j( 6 ); flut::char_stream d( "x" ); d >> j; vp_assert( j && *j == 6, "a failed reading from a character stream keeps the value" ); flut::optional_int k( 5 ); std::istringstream t( "x" ); t >> k; vp_assert( k && *k == 5, "a failed reading keeps the value" );
}
DRIVER( c29_interrupt ) { flut::interruptible a, b; vp_assert( !a.test_interrupt_flag() && !b.test_interrupt_flag(), "nothing is interrupted at first" ); const flut::interruptible& c = a; c.interrupt(); vp_assert( a.test_interrupt_flag() && !b.test_interrupt_flag(), "an interrupt reaches its object and no other" ); a.interrupt(); vp_assert( a.test_interrupt_flag(), "an interrupt stays" ); flut::interruptible d( a ); b = a; vp_assert( d.test_interrupt_flag() && b.test_interrupt_flag(), "copies are interrupted too" ); flut::interruptible e; d = e; vp_assert( !d.test_interrupt_flag() && a.test_interrupt_flag(), "assignment takes over the state" ); }
static bool matches( const char* s, const char* p ) { if ( !*p ) return !*s; if ( *p == '*' ) return matches( s, p + 1 ) || ( *s && matches( s + 1, p ) ); return *s && ( *p == '?' || *p == *s ) && matches( s + 1, p + 1 ); }
DRIVER( c29_pattern ) {
	string s = vp_any_string_in( "s", 3, "aA./" ), p = vp_any_string_in( "p", 3, "a*?.\\" ); vp_assert( flut::pattern_match( s, p ) == matches( s.c_str(), p.c_str() ), "a pattern matches with * for any text and ? for any character" );
}
DRIVER( c29_matcher ) {
	string s = vp_any_string_in( "s", 2, "a!" ), p = vp_string_in( "p", vp_choice( "length", 1, 3 ), "a!*;" ); flut::pattern_matcher m( p ); bool e = false; string part; for ( size_t i = 0; i <= p.size(); ++i ) if ( i == p.size() || p[ i ] == ';' ) { if ( !part.empty() && matches( s.c_str(), part.c_str() ) ) e = true; part.clear(); } else part += p[ i ];
	vp_assert( m( s ) == e, "a matcher accepts what one of its patterns matches" ); flut::pattern_matcher c( p.c_str() ); vp_assert( c( s ) == e, "also when made from characters" ); flut::prop_node pn; pn.set_value( p ); flut::pattern_matcher q( pn ); vp_assert( q( s ) == e, "also when made from a setting" );
	flut::pattern_matcher none; vp_assert( !none( s ), "no pattern matches nothing" );
}
DRIVER( c29_find_match ) { std::vector< string > l; for ( int i = 0; i < 3; ++i ) l.push_back( vp_string_in( "s", 1, "ab" ) ); flut::pattern_matcher m( "b" ); auto it = m.find_match( l.begin(), l.end() ); size_t e = 0; while ( e < 3 && l[ e ] != "b" ) ++e; vp_assert( size_t( it - l.begin() ) == e, "the first match in a list" ); flut::pattern_matcher d( "a,b", "," ); vp_assert( d( string( "b" ) ) && !d( string( "a,b" ) ), "other delimiters" ); vp_assert( m( &l[ 0 ] ) == ( l[ 0 ] == "b" ), "pointers to texts" ); }
DRIVER( c29_error_code ) {
	flut::error_code a; vp_assert( a.ok() && !a.error() && a.code() == 0 && a.message().empty(), "a new error code is no error" ); int c = vp_int( "c", -3, 3 ); string m = vp_any_string( "m", 2 ); flut::error_code b( c, m ); vp_assert( b.ok() == ( c == 0 ) && b.error() == ( c != 0 ) && b.code() == c && b.message() == m, "an error code keeps code and message" ); a.set( c, m ); vp_assert( a.error() == ( c != 0 ) && a.code() == c && a.message() == m, "also when set later" );
	flut::error_code e = flut::error( m ), n = flut::no_error(); vp_assert( e.error() && e.message() == m && n.ok(), "errors and no errors" ); flut::error_code t; bool r = flut::try_set_error( &t, m ); vp_assert( r && t.error() && t.message() == m, "an error is reported where it can be" ); vp_assert( !flut::try_set_error( nullptr, m ), "and not where it cannot" );
}
DRIVER( c29_identifier ) { vp_assert( flut::tidy_identifier( "ns::cls::name_" ) == "name" && flut::tidy_identifier( "m_value_" ) == "value" && flut::tidy_identifier( "_x_y_" ) == "x_y" && flut::tidy_identifier( "plain" ) == "plain", "identifiers lose their scope and decorations" ); string s = vp_any_string_in( "s", 4, "am_:" ); string t = flut::tidy_identifier( s ); vp_assert( t.find( ':' ) == string::npos && ( t.empty() || t.back() != '_' ), "no scope and no trailing underscore is left" ); }
// ---- larger sizes
DRIVER( c29_size ) {
	int n = vp_size_to( "size", 140, 1100 ); string s = vp_long_text( "c", n, n / 2, "abc" ); flut::hash_t h = 0xCBF29CE484222325ull; for ( char c : s ) h = ( h ^ flut::hash_t( c ) ) * 0x100000001B3ull; vp_assert( flut::hash( s ) == h && flut::hash( s.c_str() ) == h && flut::hash_constexpr( s.c_str() ) == h, "the hash of a long text depends on every byte" );
	vp_assert( flut::pattern_match( s, s ) && flut::pattern_match( s, "*" + s.substr( size_t( n - 2 ) ) ) && flut::pattern_match( s, s.substr( 0, 3 ) + "*" ) && flut::pattern_match( s, string( size_t( n ), '?' ) ) && !flut::pattern_match( s, string( size_t( n + 1 ), '?' ) ) && !flut::pattern_match( s, s + "x" ) && !flut::pattern_match( s, s.substr( 0, size_t( n - 1 ) ) ), "patterns for a long text" );
	string p; for ( int i = 0; i < n; ++i ) p += "z" + std::to_string( i ) + ";"; flut::pattern_matcher m( p + s ); vp_assert( m( s ) && m( "z" + std::to_string( n - 1 ) ) && m( string( "z0" ) ) && !m( "z" + std::to_string( n ) ), "one of many patterns" );
	flut::factory< base, int, int > f; for ( int i = 0; i < n; ++i ) { if ( i == n - 1 ) f.register_class< derived< 2 > >( "t" + std::to_string( i ) ); else f.register_class< derived< 1 > >( "t" + std::to_string( i ) ); } vp_assert( f.create( "t" + std::to_string( n - 1 ), 1, 2 )->id() == 2 && f.create( "t0", 1, 2 )->id() == 1 && f.try_create( "t0", 1, 2 ) && f.try_create( "t" + std::to_string( n - 1 ), 1, 2 ) && f( "t" + std::to_string( n - 1 ), 1, 2 )->id() == 2 && !f.try_create( "u", 1, 2 ) && f.has_type( "t" + std::to_string( n - 1 ) ) && !f.has_type( "t" + std::to_string( n ) ), "one of many types" );
	calls = 0; flut::memoize< int( int, int ) > r( []( int a, int b ) { ++calls; return a * 1000 + b; } ); bool ok = true; for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < n; ++i ) ok = ok && r( i, k ? i : i ) == i * 1001; vp_assert( ok && calls == n, "many results are remembered" );
	string w( size_t( n ), 'p' ); flut::version v( 1, n, 3, 0, w ); flut::version q( v.to_str() ); vp_assert( q.minor == n && q.patch == 3 && q.postfix == w, "versions with long parts" );
}
