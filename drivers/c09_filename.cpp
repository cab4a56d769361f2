#include "vp.h"
#include "flut/string_tools.hpp"
using namespace flut;
static bool sep( char c ) { return c == '/' || c == '\\'; }
static size_t name_start( const string& s ) { size_t k = 0; for ( size_t i = 0; i < s.size(); ++i ) if ( sep( s[ i ] ) ) k = i + 1; return k; }
static size_t dot_of( const string& s ) { size_t k = string::npos; for ( size_t i = name_start( s ); i < s.size(); ++i ) if ( s[ i ] == '.' ) k = i; return k; }
DRIVER( c09_folder ) {
	string s = vp_any_string( "filename", VP_N( 5, 6 ) ); size_t k = name_start( s );
	vp_assert( get_filename_folder( s ) == s.substr( 0, k ), "the folder is everything up to and including the last separator" );
	vp_assert( get_filename_without_folder( s ) == s.substr( k ), "the name is everything after the last separator" );
	vp_assert( get_filename_folder( s ) + get_filename_without_folder( s ) == s, "folder and name make up the filename" );
}
DRIVER( c09_ext ) {
	string s = vp_any_string( "filename", VP_N( 5, 6 ) ); size_t d = dot_of( s );
	string e = d == string::npos ? string() : s.substr( d + 1 );
	vp_assert( get_filename_ext( s ) == e, "the extension is what follows the last dot of the name" );
	vp_assert( get_filename_without_ext( s ) == ( e.empty() ? s : s.substr( 0, d ) ), "the rest is the filename without dot and extension" );
}
// ---- larger sizes
DRIVER( c09_size ) {
	int n = vp_size_to( "size", 300, 2100 ); string a = vp_long_text( "c", n, n / 2, "a/.\\" ), s = a + vp_long_text( "d", n, 1, "b/." ); size_t k = name_start( s ), d = dot_of( s ); string e = d == string::npos ? string() : s.substr( d + 1 );
	vp_assert( get_filename_folder( s ) == s.substr( 0, k ) && get_filename_without_folder( s ) == s.substr( k ), "folder and name of a long filename" ); vp_assert( get_filename_ext( s ) == e && get_filename_without_ext( s ) == ( e.empty() ? s : s.substr( 0, d ) ), "extension of a long filename" );
}
