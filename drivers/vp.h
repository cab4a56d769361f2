// Analysis vocabulary.  These functions are never defined: the analyser gives them their meaning.
#pragma once
#include <string>
#include <vector>
#include <cstddef>
extern "C" {
	char vp_char( const char* label );                          // any byte
	char vp_char_in( const char* label, const char* set );      // any byte of the set
	bool vp_bool( const char* label );
	int vp_int( const char* label, int lo, int hi );            // any value of the range
	long vp_long( const char* label, long lo, long hi );
	int vp_choice( const char* label, int lo, int hi );         // one partition per value
	int vp_size( const char* label, int cap );                  // one partition per size at which a constant in the analysed code matters, at most cap
	int vp_size_to( const char* label, int cap, int limit );    // the same, but sizes at which a constant matters up to limit
	double vp_real( const char* label );                        // any real number
	double vp_real_in( const char* label, double lo, double hi );
	void vp_assume( bool c );
	void vp_assert( bool c, const char* what );                 // proof obligation
	void vp_can( bool c, const char* what );                    // proof obligation: some values make the condition true
	void vp_reach( const char* what );                          // must be reached by some partition
	void vp_note( const char* what );
	void vp_stop();
	bool vp_is_undef( const void* p, size_t n );
	int vp_live_heap();
	double vp_sqrt( double x );
	// modelled environment
	void vp_fs_put( const char* path, const std::string& content );
	bool vp_fs_exists( const char* path );
	void vp_fs_get( const char* path, std::string& content );
	int vp_fs_count();
	void vp_fs_fail( int mask );                                // 1: open for writing fails, 2: write fails, 4: close fails, 8: making folders fails
	void vp_fs_mkdir( const char* path );
	void vp_fs_special( const char* path, int mode );           // something that is neither a plain file nor a folder, such as a socket (0140000): it cannot be opened
	bool vp_fs_is_dir( const char* path );
	int vp_fs_dirs();
	void vp_setenv( const char* name, const char* value );
	void vp_clock( long now, long step );                       // clocks show this time (ns), later by step after each look
	void vp_cout_get( std::string& s );
	void vp_exit_ok();
	void vp_exit_when( bool c, const char* what );              // the program may exit (with failure) only when the condition holds
	bool vp_atexit_pop( void ( **fn )( void* ), void** arg );  // the function registered last to run at the end of the program
	int vp_trace_len();

}
#define DRIVER( name ) extern "C" void drv_##name()
// any string of exactly n bytes
inline std::string vp_string( const char* label, int n ) { std::string s; for ( int i = 0; i < n; ++i ) s.push_back( vp_char( label ) ); return s; }
inline std::string vp_string_in( const char* label, int n, const char* set ) { std::string s; for ( int i = 0; i < n; ++i ) s.push_back( vp_char_in( label, set ) ); return s; }
// any string of at most n bytes: one partition per length
inline std::string vp_any_string( const char* label, int n ) { return vp_string( label, vp_choice( "length", 0, n ) ); }
inline std::string vp_any_string_in( const char* label, int n, const char* set ) { return vp_string_in( label, vp_choice( "length", 0, n ), set ); }
// a long text without blanks and special characters; the byte at position k is any of the set
inline std::string vp_long_text( const char* label, int n, int k, const char* set ) { std::string s; for ( int i = 0; i < n; ++i ) s.push_back( i == k ? vp_char_in( label, set ) : char( 'a' + i % 23 ) ); return s; }
template< typename F > bool vp_throws( F f ) { try { f(); return false; } catch ( ... ) { return true; } }
#ifdef VP_THOROUGH
#	define VP_N( quick, thorough ) ( thorough )
#else
#	define VP_N( quick, thorough ) ( quick )
#endif
inline bool vp_in( const char* set, char c ) { for ( ; *set; ++set ) if ( *set == c ) return true; return false; }
