// files and folders
#include "vp.h"
#include "flut/filesystem.hpp"
#include "flut/system_tools.hpp"
using namespace flut;
using std::string;
static string content( const char* p ) { string s; vp_fs_get( p, s ); return s; }
DRIVER( c30_copy ) {
	string data = vp_any_string( "data", 3 ), old = vp_any_string( "old", 2 ); bool src = vp_choice( "source exists", 0, 1 ), dst = vp_choice( "destination exists", 0, 1 ), over = vp_choice( "overwrite", 0, 1 ); int fail = vp_choice( "fault", 0, 3 );
	if ( src ) vp_fs_put( "a.txt", data ); if ( dst ) vp_fs_put( "b.txt", old ); int n = vp_fs_count(); vp_fs_fail( fail == 0 ? 0 : 1 << ( fail - 1 ) ); bool ok = copy_file( "a.txt", "b.txt", over ); vp_fs_fail( 0 );
	if ( ok ) vp_assert( vp_fs_exists( "b.txt" ) && content( "b.txt" ) == data && src && ( over || !dst ), "after a successful copy the destination has the content of the source" );
	if ( fail == 0 || ( fail == 2 && data.empty() ) ) vp_assert( ok == ( src && ( over || !dst ) ), "a copy succeeds if the source can be read and the destination may be written" );
	if ( !src || ( dst && !over ) ) vp_assert( !ok && vp_fs_exists( "b.txt" ) == dst && ( !dst || content( "b.txt" ) == old ) && vp_fs_count() == n, "otherwise the destination is left alone" );
	if ( src ) vp_assert( content( "a.txt" ) == data, "the source is left alone" );
}
DRIVER( c30_copy_long ) { static const int ns[] = { 1023, 1024, 1025, 4096, 5000 }; string data( ns[ vp_choice( "size", 0, 4 ) ], 'x' ); data += vp_string( "tail", 2 ); data.insert( 10, vp_string( "middle", 1 ) ); vp_fs_put( "a", data ); vp_assert( copy_file( "a", "b", false ) && content( "b" ) == data, "long files are copied whole" ); vp_assert( load_string( "a" ) == data, "and loaded whole" ); }
DRIVER( c30_copy_self ) {
	static const int ns[] = { 0, 1, 8190, 8191, 8192, 9000 }; string data( ns[ vp_choice( "size", 0, 5 ) ], 'x' ); if ( !data.empty() ) data.back() = vp_char( "last" ); vp_fs_mkdir( "d" ); vp_fs_put( "d/a", data ); bool over = vp_choice( "overwrite", 0, 1 ); static const char* to[] = { "d/a", "d//a", "./d/a" }; bool ok = copy_file( "d/a", to[ vp_choice( "name", 0, 2 ) ], over );
	vp_assert( vp_fs_exists( "d/a" ) && content( "d/a" ) == data && vp_fs_count() == 1, "copying a file onto itself does not change it" ); if ( !over ) vp_assert( !ok, "and is refused if it may not be overwritten" );
}
DRIVER( c30_copy_folder ) { vp_fs_mkdir( "d" ); vp_fs_put( "a", "x" ); vp_assert( !copy_file( "d", "b", true ) && !vp_fs_exists( "b" ), "a folder is not copied as a file" ); vp_assert( !copy_file( "a", "d", true ) && vp_fs_is_dir( "d" ), "a folder is not overwritten" ); vp_assert( !copy_file( "a", "none/b", true ), "a missing folder is an error" ); }
DRIVER( c30_exists ) {
	int k = vp_choice( "kind", 0, 2 ); if ( k == 1 ) vp_fs_put( "p", vp_any_string( "data", 1 ) ); if ( k == 2 ) vp_fs_mkdir( "p" );
	vp_assert( exists( "p" ) == ( k != 0 ), "files and folders exist" ); vp_assert( file_exists( "p" ) == ( k == 1 ), "a file exists if it is a file" ); vp_assert( folder_exists( "p" ) == ( k == 2 ), "a folder exists if it is a folder" );
	int n = vp_fs_count(), d = vp_fs_dirs(); exists( "q" ); file_exists( "q" ); folder_exists( "q" ); vp_assert( vp_fs_count() == n && vp_fs_dirs() == d, "asking changes nothing" );
	bool r = flut::remove( "p" ); vp_assert( r == ( k != 0 ) && !exists( "p" ), "removing" ); vp_assert( !flut::remove( "p" ), "what does not exist cannot be removed" );
}
DRIVER( c30_create ) {
	static const char* names[] = { "a", "a/b", "a/b/c", "/r/s", "a/", "a/b/", "a//b", "a/b//", "/r/" }; int i = vp_choice( "name", 0, 8 ), have = vp_choice( "existing", 0, 4 ); if ( have >= 1 ) vp_fs_mkdir( "a" ); if ( have >= 2 ) vp_fs_mkdir( "a/b" ); if ( have >= 3 ) vp_fs_mkdir( "a/b/c" ); if ( have == 4 ) { vp_fs_mkdir( "/r" ); vp_fs_mkdir( "/r/s" ); }
	path p( names[ i ] ); bool had = folder_exists( p ); int d = vp_fs_dirs(); bool ok = create_directories( p ); vp_assert( ok == !had, "creating a folder succeeds if it does not exist yet" ); vp_assert( vp_fs_is_dir( names[ i ] ), "afterwards it exists" );
	if ( i == 1 ) vp_assert( vp_fs_is_dir( "a" ), "with its parent" ); if ( i == 2 ) vp_assert( vp_fs_is_dir( "a" ) && vp_fs_is_dir( "a/b" ), "with all its parents" ); if ( had ) vp_assert( vp_fs_dirs() == d, "and nothing else is created" );
}
DRIVER( c30_create_fault ) { vp_fs_fail( 8 ); vp_assert( !create_directories( "x" ) && !create_directories( "x/y" ), "a folder that cannot be created is reported" ); vp_fs_fail( 0 ); vp_fs_put( "f", "" ); vp_assert( !create_directories( "f" ) && !create_directories( "f/g" ), "a file in the way is reported" ); }
DRIVER( c30_unique ) {
	int n = vp_choice( "existing", 0, 3 ); static const char* names[] = { "u", "u (1)", "u (2)" }; for ( int i = 0; i < n; ++i ) vp_fs_mkdir( names[ i ] ); bool deep = vp_choice( "gap", 0, 1 ); if ( deep ) vp_fs_mkdir( "u (3)" ); int d = vp_fs_dirs(); path p = create_unique_folder( "u" );
	string e = n == 0 ? "u" : n == 3 && deep ? "u (4)" : "u (" + std::to_string( n ) + ")"; vp_assert( p.str() == e && vp_fs_is_dir( e.c_str() ) && vp_fs_dirs() == d + 1, "a unique folder is new and has the first free number" ); path q = create_unique_folder( "u" ); vp_assert( q.str() != p.str() && vp_fs_is_dir( q.c_str() ), "the next one is another" );
}
DRIVER( c30_unique_limit ) { vp_fs_mkdir( "u" ); vp_fs_mkdir( "u (1)" ); vp_assert( vp_throws( [] { create_unique_folder( "u", 2 ); } ), "too many attempts are an error" ); vp_assert( vp_fs_dirs() == 2, "that creates nothing" ); path p = create_unique_folder( "u", 3 ); vp_assert( p.str() == "u (2)", "one more attempt is enough" ); vp_fs_fail( 8 ); vp_assert( vp_throws( [] { create_unique_folder( "v", 3 ); } ), "folders that cannot be created are an error" ); }
DRIVER( c30_unique_nested ) { path p = create_unique_folder( "x/y" ), q = create_unique_folder( "x/y" ); vp_assert( p.str() == "x/y" && q.str() == "x/y (1)" && vp_fs_is_dir( "x" ) && vp_fs_is_dir( "x/y" ) && vp_fs_is_dir( "x/y (1)" ), "unique folders are created with their parents" ); }
DRIVER( c30_load ) {
	string d = vp_any_string( "data", 4 ); vp_fs_put( "f", d ); vp_assert( load_string( "f" ) == d, "a file is loaded as it is, whatever it contains" ); error_code ec; vp_assert( load_string( "f", &ec ) == d && ec.ok(), "without an error" );
	vp_assert( vp_throws( [] { load_string( "g" ); } ), "a missing file is an error" ); error_code e2; string r = load_string( "g", &e2 ); vp_assert( r.empty() && e2.error() && e2.message().find( "g" ) != string::npos, "which is reported where asked for" );
}
DRIVER( c30_current ) { vp_fs_mkdir( "/w" ); vp_fs_mkdir( "/w/x" ); vp_fs_put( "/w/x/f", "1" ); current_path( "/w" ); vp_assert( current_path().str() == "/w" && file_exists( "x/f" ) && !file_exists( "f" ), "names are relative to the current folder" ); current_path( "x" ); vp_assert( current_path().str() == "/w/x" && file_exists( "f" ), "which can be changed relative to itself" ); }
DRIVER( c30_home ) { vp_setenv( "HOME", "/home/u" ); vp_assert( get_config_folder().str() == "/home/u/.config" && get_documents_folder().str() == "/home/u", "settings and documents are in the home folder" ); vp_assert( get_application_folder().str().empty(), "the application folder is the current one" ); }
DRIVER( c30_special ) { // sockets and devices
	static const int modes[] = { 0140000, 0060000, 0020000, 0010000 }; int m = vp_choice( "kind", 0, 3 ); vp_fs_special( "s", modes[ m ] ); vp_fs_put( "a", "x" );
	vp_assert( exists( "s" ) && !folder_exists( "s" ), "what is neither a file nor a folder exists, but is no folder" ); if ( m == 0 ) vp_assert( !file_exists( "s" ) && !copy_file( "s", "b", true ) && !vp_fs_exists( "b" ), "a socket is no file and not copied" ); vp_assert( !create_directories( "s" ), "no folder is created in its place" );
}
DRIVER( c30_create_root ) { static const char* names[] = { "", "/", "//", "///", "./", "." }; int i = vp_choice( "name", 0, 5 ); int d = vp_fs_dirs(); vp_assert( !create_directories( names[ i ] ), "no folder is created where one exists already or where there is no name" ); vp_assert( vp_fs_dirs() == d, "and nothing changes" ); }
// ---- larger sizes
DRIVER( c30_size ) { int n = vp_size_to( "size", 5000, 70000 ); string d = vp_long_text( "c", n, n - 1, "ab" ) + string( 1, 0 ) + vp_string( "tail", 1 ); vp_fs_put( "a", d ); vp_assert( load_string( "a" ) == d, "a file of any size is loaded" ); vp_assert( copy_file( "a", "b", false ) && content( "b" ) == d && content( "a" ) == d, "a file of any size is copied" ); }
DRIVER( c30_size_folders ) { int n = vp_size_to( "folders", 70, 520 ); string p; for ( int i = 0; i < n; ++i ) p += i ? "/d" : "d"; vp_assert( create_directories( path( p ) ) && vp_fs_is_dir( p.c_str() ) && vp_fs_dirs() == n, "any number of nested folders is created" ); for ( int i = 0; i < n; ++i ) vp_fs_mkdir( i ? ( "u (" + std::to_string( i ) + ")" ).c_str() : "u" ); path q = create_unique_folder( "u" ); vp_assert( q.str() == "u (" + std::to_string( n ) + ")" && vp_fs_is_dir( q.c_str() ), "the first free number after many" ); }
