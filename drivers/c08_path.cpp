// paths fall apart into folder, name, stem and extension, and go together again
#include "vp.h"
#include "flut/system/path.hpp"
#include <sstream>
using flut::path; using std::string;
static bool sep( char c ) { return c == '/' || c == '\\'; }
static string text( const char* l, int n ) { return vp_any_string( l, n ); }
static size_t name_start( const string& s ) { size_t k = 0; for ( size_t i = 0; i < s.size(); ++i ) if ( sep( s[ i ] ) ) k = i + 1; return k; }
static size_t dot_of( const string& s ) { size_t k = string::npos; for ( size_t i = name_start( s ); i < s.size(); ++i ) if ( s[ i ] == '.' ) k = i; return k; }
static string folder( const string& s ) { size_t k = name_start( s ); return k == 0 ? string() : k == 1 ? s.substr( 0, 1 ) : s.substr( 0, k - 1 ); }
DRIVER( c08_filename ) { string s = text( "path", VP_N( 4, 6 ) ); vp_assert( path( s ).filename().str() == s.substr( name_start( s ) ), "the filename is what follows the last separator" ); vp_assert( path( s ).str() == s && path( s ).string() == s, "a path keeps its text" ); }
DRIVER( c08_parent ) { string s = text( "path", VP_N( 4, 6 ) ); vp_assert( path( s ).parent_path().str() == folder( s ), "the parent is what precedes the last separator, the root keeps its separator" ); }
DRIVER( c08_extension ) {
	string s = text( "path", VP_N( 4, 6 ) ); size_t d = dot_of( s );
	vp_assert( path( s ).extension().str() == ( d == string::npos ? string() : s.substr( d + 1 ) ), "the extension is what follows the last dot of the filename" );
	size_t k = name_start( s );
	vp_assert( path( s ).stem().str() == ( d == string::npos ? s.substr( k ) : s.substr( k, d - k ) ), "the stem is the filename without its extension" );
}
DRIVER( c08_replace_extension ) {
	string s = text( "path", VP_N( 3, 5 ) ), e = text( "extension", 2 ); size_t d = dot_of( s );
	string base = d == string::npos ? s : s.substr( 0, d );
	path p( s ); path& r = p.replace_extension( path( e ) );
	vp_assert( &r == &p, "replace_extension works on the path itself" );
	vp_assert( p.str() == ( e.empty() ? base : base + "." + e ), "only the extension changes, an empty one is removed together with its dot" );
	path q( s ); q.replace_extension(); vp_assert( q.str() == base, "without an argument the extension is removed" );
}
DRIVER( c08_remove_filename ) { string s = text( "path", VP_N( 4, 6 ) ); path p( s ); p.remove_filename(); vp_assert( p.str() == folder( s ), "removing the filename leaves the parent" ); }
DRIVER( c08_replace_filename ) {
	string s = text( "path", VP_N( 3, 4 ) ), f = text( "name", 2 ); path p( s ); p.replace_filename( path( f ) );
	string b = folder( s ); if ( !b.empty() && !sep( b[ b.size() - 1 ] ) ) b += '/';
	vp_assert( p.str() == b + f, "replacing the filename keeps the folder" );
}
DRIVER( c08_join ) {
	string a = text( "left", VP_N( 3, 4 ) ), b = text( "right", 2 );
	string r = a.empty() || sep( a[ a.size() - 1 ] ) ? a + b : a + "/" + b;
	vp_assert( ( path( a ) / path( b ) ).str() == r, "joining adds one separator where there is none (path)" );
	vp_assert( ( path( a ) / b ).str() == r, "joining adds one separator where there is none (string)" );
	bool z = false; for ( char c : b ) z = z || c == 0;
	if ( !z ) vp_assert( ( path( a ) / b.c_str() ).str() == r, "joining adds one separator where there is none (literal)" );
	path p( a ); p /= path( b ); vp_assert( p.str() == r, "joining in place gives the same (path)" );
	path q( a ); q /= b; vp_assert( q.str() == r, "joining in place gives the same (string)" );
}
DRIVER( c08_concat ) {
	string a = text( "left", 2 ), b = text( "right", 2 );
	vp_assert( ( path( a ) + b ).str() == a + b && ( a + path( b ) ).str() == a + b, "concatenation adds nothing" );
	vp_assert( ( path( a ) == path( b ) ) == ( a == b ) && ( path( a ) != path( b ) ) == ( a != b ), "paths are equal when their texts are" );
}
DRIVER( c08_preferred ) {
	string s = text( "path", VP_N( 4, 6 ) ); path p( s ); p.make_preferred();
	vp_assert( p.str().size() == s.size(), "only separators change" );
	for ( size_t i = 0; i < s.size(); ++i ) vp_assert( p.str()[ i ] == ( sep( s[ i ] ) ? path::preferred_separator() : s[ i ] ), "every separator becomes the preferred one and nothing else changes" );
	vp_assert( sep( path::preferred_separator() ), "the preferred separator is a separator" );
}
DRIVER( c08_queries ) {
	string s = text( "path", VP_N( 4, 6 ) );
	vp_assert( path( s ).empty() == s.empty(), "a path is empty when its text is" );
	vp_assert( path( s ).has_filename() == ( name_start( s ) < s.size() ), "there is a filename when something follows the last separator" );
	vp_assert( path( s ).has_parent_path() == ( name_start( s ) > 0 && s.size() > 1 ), "there is a parent when there is a separator and more than the root" );
}
// going up ends: the parent is shorter as long as there is one
DRIVER( c08_ascend ) {
	string s = text( "path", VP_N( 4, 5 ) ); path p( s ); int n = 0;
	while ( p.has_parent_path() && n < 10 ) { path q = p.parent_path(); vp_assert( q.str().size() < p.str().size(), "a parent is shorter than its path" ); p = q; ++n; }
	vp_assert( !p.has_parent_path(), "going from parent to parent comes to an end" );
}
DRIVER( c08_recompose ) {
	string s = text( "path", VP_N( 4, 5 ) ); path p( s );
	string e = p.extension().str(), st = p.stem().str(), f = p.filename().str();
	vp_assert( f == st || f == st + "." + e, "stem, dot and extension make up the filename" );
	string b = p.parent_path().str();
	vp_assert( s.size() >= f.size() && s.compare( s.size() - f.size(), string::npos, f ) == 0, "the path ends in its filename" );
	vp_assert( s.compare( 0, b.size(), b ) == 0, "the path starts with its parent" );
}
DRIVER( c08_copy ) {
	string s = text( "path", 3 ), t = text( "other", 2 ); path a( s ), b( a ), c; c = a; path d( std::move( a ) ); path e; e = std::move( b );
	vp_assert( c.str() == s && d.str() == s && e.str() == s, "copies and moved paths keep the text" );
	c = t; vp_assert( c.str() == t && d.str() == s, "copies are independent" );
	path f( s ); f = string( t ); vp_assert( f.str() == t, "a path can be assigned a text" );
	std::ostringstream str; str << d; vp_assert( str.str() == s, "a path is printed as its text" );
}
// ---- larger sizes
DRIVER( c08_size ) {
	int n = vp_size_to( "size", 300, 2100 ); string a = vp_long_text( "c", n, n / 2, "a/.\\" ), s = a + "/x." + a; size_t d = dot_of( s ), k = name_start( s ); path p( s );
	vp_assert( p.filename().str() == s.substr( k ) && p.parent_path().str() == folder( s ) && p.extension().str() == ( d == string::npos ? string() : s.substr( d + 1 ) ) && p.stem().str() == ( d == string::npos ? s.substr( k ) : s.substr( k, d - k ) ), "long paths fall apart like short ones" );
	path q( s ); q.replace_extension( path( a ) ); vp_assert( q.str() == ( d == string::npos ? s : s.substr( 0, d ) ) + "." + a, "only the extension of a long path changes" ); path r( a ); r /= path( a ); vp_assert( r.str() == a + "/" + a, "long paths are joined" ); path m( s ); m.make_preferred(); vp_assert( m.str().size() == s.size() && m.str()[ size_t( n ) ] == path::preferred_separator(), "only separators change" );
}
DRIVER( c08_size_deep ) { int n = vp_size_to( "folders", 140, 1100 ); path p; for ( int i = 0; i < n; ++i ) p /= string( "d" ); vp_assert( p.str().size() == size_t( 2 * n - 1 ), "joining adds one separator each" ); int k = 0; while ( p.has_parent_path() && k <= n ) { p = p.parent_path(); ++k; } vp_assert( k == n - 1 && p.str() == "d", "every folder is one step up" ); }
