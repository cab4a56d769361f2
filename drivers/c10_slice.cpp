// slicing, searching, trimming and splitting
#include "vp.h"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
using namespace flut;
static const char* BLANK = " \t\r\n\f\v";
DRIVER( c10_left ) {
	string s = vp_any_string( "text", 3 ); int n = vp_int( "n", -6, 6 ); string r = left_str( s, n ); int z = int( s.size() );
	int want = n >= 0 ? ( n < z ? n : z ) : ( z + n > 0 ? z + n : 0 );
	vp_assert( int( r.size() ) == want, "left_str returns n characters, or all but n for a negative n" );
	vp_assert( s.compare( 0, r.size(), r ) == 0, "left_str returns the start of the text" );
}
DRIVER( c10_right ) {
	string s = vp_any_string( "text", 3 ); int n = vp_int( "n", -6, 6 ); string r = right_str( s, n ); int z = int( s.size() );
	int want = n >= 0 ? ( n < z ? n : z ) : ( z + n > 0 ? z + n : 0 );
	vp_assert( int( r.size() ) == want, "right_str returns n characters, or all but n for a negative n" );
	vp_assert( s.compare( s.size() - r.size(), r.size(), r ) == 0, "right_str returns the end of the text" );
}
DRIVER( c10_huge_n ) {
	string s = vp_any_string( "text", 2 ); int n = vp_int( "n", -2147483647, 2147483647 );
	string l = left_str( s, n ), r = right_str( s, n ); int z = int( s.size() );
	vp_assert( l.size() == r.size(), "left_str and right_str return equally many characters" );
	if ( n >= z ) vp_assert( l == s && r == s, "asking for more than there is returns everything" );
	if ( n <= -z ) vp_assert( l.empty() && r.empty(), "leaving out more than there is returns nothing" );
}
DRIVER( c10_mid ) { string s = vp_any_string( "text", 3 ); size_t p = size_t( vp_choice( "pos", 0, 3 ) ), n = size_t( vp_choice( "n", 0, 4 ) ); vp_assume( p <= s.size() ); vp_assert( mid_str( s, p, n ) == s.substr( p, n ) && mid_str( s, p ) == s.substr( p ), "mid_str returns the middle" ); }
static bool at( const string& s, size_t p, const string& t ) { if ( p + t.size() > s.size() ) return false; for ( size_t i = 0; i < t.size(); ++i ) if ( s[ p + i ] != t[ i ] ) return false; return true; }
DRIVER( c10_find ) {
	string s = vp_any_string_in( "text", 4, "ab" ), t = vp_any_string_in( "part", 2, "ab" );
	index_t k = no_index; for ( size_t i = 0; i <= s.size() && k == no_index; ++i ) if ( at( s, i, t ) ) k = i;
	vp_assert( in_str( s, t ) == k, "in_str is the first position of the part, or no_index" );
	size_t from = size_t( vp_choice( "from", 0, 2 ) ); index_t k2 = no_index; for ( size_t i = from; i <= s.size() && k2 == no_index; ++i ) if ( at( s, i, t ) ) k2 = i;
	vp_assert( in_str( s, t, from ) == k2, "in_str starts at the given position" );
}
DRIVER( c10_begins_ends ) {
	string s = vp_any_string( "text", 3 ), t = vp_any_string( "part", 2 );
	vp_assert( str_begins_with( s, t ) == at( s, 0, t ), "str_begins_with compares the start" );
	vp_assert( str_ends_with( s, t ) == ( s.size() >= t.size() && at( s, s.size() - t.size(), t ) ), "str_ends_with compares the end" );
}
static void trim_case( const string& s, const char* set, const string& l, const string& r ) {
	size_t a = 0, b = s.size(); while ( a < b && vp_in( set, s[ a ] ) ) ++a; while ( b > a && vp_in( set, s[ b - 1 ] ) ) --b;
	size_t e = s.size(); while ( e > 0 && vp_in( set, s[ e - 1 ] ) ) --e;
	vp_assert( l == s.substr( a, b - a ), "trim_str removes exactly the leading and trailing characters of the set" );
	vp_assert( r == s.substr( 0, e ), "trim_right_str removes exactly the trailing characters of the set" );
}
DRIVER( c10_trim ) { string s = vp_any_string( "text", VP_N( 4, 5 ) ); for ( char c : s ) vp_assume( c != 0 ); trim_case( s, BLANK, trim_str( s ), trim_right_str( s ) ); }
DRIVER( c10_trim_set ) { string s = vp_any_string_in( "text", VP_N( 4, 5 ), "a_- " ); trim_case( s, "_-", trim_str( s, "_-" ), trim_right_str( s, "_-" ) ); }
DRIVER( c10_split ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "ab,;" ); auto v = split_str( s, ",;" );
	vector< string > ref; string cur; for ( size_t i = 0; i <= s.size(); ++i ) if ( i == s.size() || s[ i ] == ',' || s[ i ] == ';' ) { if ( !cur.empty() ) ref.push_back( cur ); cur.clear(); } else cur += s[ i ];
	vp_assert( v.size() == ref.size(), "split_str finds every non-empty part" );
	for ( size_t i = 0; i < v.size() && i < ref.size(); ++i ) vp_assert( v[ i ] == ref[ i ], "split_str returns the parts in order" );
}
DRIVER( c10_left_of ) {
	string s = vp_any_string_in( "text", VP_N( 4, 5 ), "ab=:" ); size_t f = string::npos, l = string::npos;
	for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == '=' || s[ i ] == ':' ) { if ( f == string::npos ) f = i; l = i; }
	vp_assert( left_of_str( s, "=:" ) == ( f == string::npos ? s : s.substr( 0, f ) ), "left_of_str ends before the first separator" );
	vp_assert( right_of_str( s, "=:" ) == ( l == string::npos ? s : s.substr( l + 1 ) ), "right_of_str starts after the last separator" );
}
static string trimmed( const string& s ) { size_t a = 0, b = s.size(); while ( a < b && vp_in( BLANK, s[ a ] ) ) ++a; while ( b > a && vp_in( BLANK, s[ b - 1 ] ) ) --b; return s.substr( a, b - a ); }
DRIVER( c10_key_value ) {
	string s = vp_any_string_in( "text", VP_N( 5, 6 ), "ab= \t" ); size_t f = string::npos;
	for ( size_t i = 0; i < s.size() && f == string::npos; ++i ) if ( s[ i ] == '=' ) f = i;
	auto kv = make_key_value_str( s );
	if ( f == string::npos ) vp_assert( kv.first == s && kv.second.empty(), "without a separator the whole text is the key" );
	else vp_assert( kv.first == trimmed( s.substr( 0, f ) ) && kv.second == trimmed( s.substr( f + 1 ) ), "key and value are the trimmed texts around the first separator" );
}
DRIVER( c10_key_value_sep ) { string s = vp_any_string_in( "text", 4, "a:; " ); size_t f = string::npos; for ( size_t i = 0; i < s.size() && f == string::npos; ++i ) if ( s[ i ] == ':' || s[ i ] == ';' ) f = i; auto kv = make_key_value_str( s, ":;" ); if ( f != string::npos ) vp_assert( kv.first == trimmed( s.substr( 0, f ) ) && kv.second == trimmed( s.substr( f + 1 ) ), "any separator of the set divides key and value" ); else vp_assert( kv.first == s && kv.second.empty(), "no separator, no value" ); }
DRIVER( c10_tidy ) {
	string s = vp_any_string_in( "identifier", VP_N( 5, 6 ), "m_a:" ); string t = tidy_identifier( s );
	vp_assert( t.empty() || ( t.back() != '_' && t.find( ':' ) == string::npos ), "a tidy identifier has no scope and no trailing underscore" );
	size_t k = s.find_last_of( ':' ); string u = k == string::npos ? s : s.substr( k + 1 );
	if ( k == string::npos && s.size() >= 2 && s[ 0 ] == 'm' && s[ 1 ] == '_' ) { u = s.substr( 2 ); }
	else { while ( !u.empty() && u.front() == '_' ) u.erase( 0, 1 ); }
	while ( !u.empty() && u.back() == '_' ) u.pop_back();
	vp_assert( t == u, "scope, m_ prefix and underscores are removed, nothing else" );
}
// ---- larger sizes
DRIVER( c10_size ) {
	int n = vp_size_to( "size", 300, 1100 ); string s = vp_long_text( "c", n, n / 2, "a, =" ); int k = vp_choice( "edge", 0, 5 ), c = k == 0 ? n - 1 : k == 1 ? n : k == 2 ? n + 1 : k == 3 ? 1 - n : k == 4 ? -n : 1; int want = c >= 0 ? ( c < n ? c : n ) : ( n + c > 0 ? n + c : 0 );
	vp_assert( left_str( s, c ) == s.substr( 0, size_t( want ) ) && right_str( s, c ) == s.substr( size_t( n - want ) ), "parts of a long text" ); vp_assert( mid_str( s, 1, size_t( n ) ) == s.substr( 1 ) && str_begins_with( s, s ) && str_ends_with( s, s.substr( 2 ) ) && !str_begins_with( s, s + "x" ), "parts of a long text" );
	string b = string( size_t( n ), ' ' ); vp_assert( trim_str( b + "x y" + b ) == "x y" && trim_right_str( b + "x" + b ) == b + "x", "any number of blanks is trimmed" ); vp_assert( in_str( s + "ZY", "ZY" ) == size_t( n ) && in_str( s, "ZY" ) == no_index, "a part is found at the end of a long text" );
	auto kv = make_key_value_str( s.substr( 0, size_t( n / 2 ) ) + "=" + b + "v" ); vp_assert( kv.first == s.substr( 0, size_t( n / 2 ) ) && kv.second == "v", "long keys" );
}
DRIVER( c10_size_split ) { int n = vp_size_to( "parts", 300, 2100 ); string s; for ( int i = 0; i < n; ++i ) { s += char( 'a' + i % 20 ); s += i % 2 ? "," : ",;"; } auto v = split_str( s, ",;" ); vp_assert( v.size() == size_t( n ), "every part of a long text is found" ); bool ok = true; for ( int i = 0; i < n; ++i ) ok = ok && v[ size_t( i ) ] == string( 1, char( 'a' + i % 20 ) ); vp_assert( ok, "the parts are in order" ); string w = vp_long_text( "c", n, n / 2, "a" ); auto u = split_str( w + "," + w, "," ); vp_assert( u.size() == 2 && u[ 0 ] == w && u[ 1 ] == w, "long parts are complete" ); }
