#include "vp.h"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include <sstream>
using namespace flut;
typedef log::level L;
DRIVER( c03_stream ) {
	std::ostringstream os;
	L t = (L)vp_int( "threshold", 1, 7 ), l = (L)vp_int( "message level", 1, 6 );
	log::stream_sink s( t, os );
	string m = vp_any_string( "text", 2 );
	log::log_string( l, m ); log::log_string( l, "second" );
	if ( l >= t ) vp_assert( os.str() == m + "\nsecond\n", "a stream sink writes each message as one line, in order" );
	else vp_assert( os.str().empty(), "a stream sink writes nothing below its threshold" );
}
DRIVER( c03_cout ) {
	log::stream_sink s( log::info_level );
	log::info( "hello" );
	string c; vp_cout_get( c ); vp_assert( c == "hello\n", "the default stream sink writes to standard output" );
}
DRIVER( c03_file ) {
	string m = vp_any_string( "text", 2 );
	{
		log::file_sink s( log::info_level, path( "log.txt" ) );
		vp_assert( s.good(), "a file sink that was opened is good" );
		log::log_string( log::info_level, m ); log::log_string( log::debug_level, "no" ); log::log_string( log::error_level, "end" );
	}
	string c; vp_fs_get( "log.txt", c );
	vp_assert( c == m + "\nend\n", "a file sink writes each admitted message as one line of its file" );
}
DRIVER( c03_file_fails ) {
	vp_fs_fail( 1 );
	log::file_sink s( log::info_level, path( "no/log.txt" ) );
	vp_assert( !s.good(), "a file sink that cannot open its file is not good" );
	log::info( "x" );
	vp_assert( !vp_fs_exists( "no/log.txt" ), "a file sink that cannot open its file writes nothing" );
}
// ---- larger sizes
DRIVER( c03_size ) {
	int n = vp_size_to( "size", 1100, 5000 ); string t = vp_long_text( "c", n, n / 2, "ab%" ), want; std::ostringstream os; { log::stream_sink s( log::info_level, os ); log::file_sink f( log::info_level, path( "log.txt" ) ); log::info( t ); want = t + "\n"; for ( int i = 0; i < n; ++i ) { log::info( "x" ); want += "x\n"; } }
	string c; vp_fs_get( "log.txt", c ); vp_assert( c == want && os.str() == want, "long messages and many messages are written completely" );
}
// what a file held before is gone, and each line is in the file when the call returns: a crash afterwards does not lose it
DRIVER( c03_file_begins ) {
	vp_fs_put( "log.txt", "old\nlines\n" ); string m = vp_any_string( "text", 2 );
	log::file_sink s( log::info_level, path( "log.txt" ) ); string c; vp_fs_get( "log.txt", c ); vp_assert( c.empty(), "a file sink begins with an empty file" );
	log::log_string( log::info_level, m ); vp_fs_get( "log.txt", c ); vp_assert( c == m + "\n", "a message is in the file as soon as it was sent" );
	log::log_string( log::error_level, "end" ); vp_fs_get( "log.txt", c ); vp_assert( c == m + "\nend\n", "a further message is in the file as soon as it was sent" );
}
// two sinks on one stream and a sink that ends before its stream
DRIVER( c03_shared ) {
	std::ostringstream os; L a = (L)vp_int( "threshold a", 1, 7 ), b = (L)vp_int( "threshold b", 1, 7 ), l = (L)vp_int( "message level", 1, 6 ); string want;
	log::stream_sink s( a, os ); { log::stream_sink s2( b, os ); log::log_string( l, "m" ); } log::log_string( l, "" );
	if ( l >= a ) want += "m\n"; if ( l >= b ) want += "m\n"; if ( l >= a ) want += "\n";
	vp_assert( os.str() == want, "each sink writes its own line to a shared stream, an empty line for an empty message" );
}
