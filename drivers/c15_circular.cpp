// circular buffers keep the most recent elements in order
#include "vp.h"
#include "flut/circular_deque.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
static void same( circular_deque< int >& d, const std::vector< int >& r ) {
	const circular_deque< int >& c = d;
	vp_assert( d.size() == r.size() && d.empty() == r.empty() && c.capacity() >= r.size() && c.full() == ( c.capacity() == r.size() ), "the size is the number of elements, and the capacity holds them" );
	for ( size_t i = 0; i < r.size(); ++i ) vp_assert( d[ i ] == r[ i ] && c[ i ] == r[ i ], "elements keep their order" );
	if ( !r.empty() ) vp_assert( d.front() == r.front() && d.back() == r.back() && c.front() == r.front() && c.back() == r.back(), "front and back are the first and last element" );
	else vp_assert( vp_throws( [&] { d.front(); } ) && vp_throws( [&] { d.back(); } ) && vp_throws( [&] { d.pop_back(); } ) && vp_throws( [&] { d.pop_front(); } ), "an empty deque has no elements to give" );
	size_t k = 0; for ( auto it = d.begin(); it != d.end(); ++it ) { vp_assert( k < r.size() && *it == r[ k ], "iteration visits every element once, in order" ); ++k; } vp_assert( k == r.size(), "iteration ends after the last element" );
	k = 0; for ( const int& x : c ) { vp_assert( k < r.size() && x == r[ k ], "iterating a constant deque gives the same elements" ); ++k; } vp_assert( k == r.size() && d.end() - d.begin() == std::ptrdiff_t( r.size() ) && c.end() - c.begin() == std::ptrdiff_t( r.size() ) && ( d.begin() == d.end() ) == r.empty(), "the ends are as far apart as there are elements" );
	if ( !r.empty() ) { int n = int( r.size() ); vp_assert( *( d.begin() + ( n - 1 ) ) == r.back() && *( d.end() - n ) == r.front() && *( c.begin() + n / 2 ) == r[ size_t( n / 2 ) ] && d.begin() + n == d.end() && ( d.end() - n ) + n == d.end() && ( d.end() - 1 ) - d.begin() == n - 1 && d.end() - n == d.begin() && ( c.end() - n ) - c.begin() == 0 && *( c.end() - 1 ) == r.back(), "iterators move by any number of elements" ); auto i = d.begin(); auto j = i++; vp_assert( *j == r.front() && i - j == 1 && j == d.begin(), "an iterator can be advanced after its value is used" ); }
}
static void history( size_t cap, int steps ) {
	circular_deque< int > d( cap ); std::vector< int > r;
	vp_assert( d.empty() && d.size() == 0 && d.capacity() == cap, "a new deque is empty and has the requested capacity" );
	for ( int i = 0; i < steps; ++i ) {
		int op = vp_choice( "operation", 0, r.empty() ? 1 : 3 ); int v = vp_int( "value", -1000, 1000 );
		size_t room = d.capacity(); bool full = r.size() == room;
		if ( op == 0 ) { d.push_back( v ); r.push_back( v ); }
		else if ( op == 1 ) { d.push_front( v ); r.insert( r.begin(), v ); }
		else if ( op == 2 ) { d.pop_front(); r.erase( r.begin() ); }
		else { d.pop_back(); r.pop_back(); }
		vp_assert( ( full && op < 2 ) || d.capacity() == room, "only adding to a full deque changes its capacity" );
	}
	same( d, r );
	int last = vp_choice( "finally", 0, 4 );
	if ( last == 1 ) { d.reserve( size_t( vp_choice( "reserve", 0, 6 ) ) ); same( d, r ); d.push_back( 5 ); r.push_back( 5 ); same( d, r ); }
	if ( last == 2 ) { d.clear(); r.clear(); same( d, r ); d.push_front( 6 ); r.push_back( 6 ); d.push_back( 7 ); r.push_back( 7 ); same( d, r ); }
	if ( last == 3 && r.size() ) { d[ r.size() - 1 ] = 42; r.back() = 42; d.front() = 41; r.front() = 41; same( d, r ); }
	if ( last == 4 ) { circular_deque< int > e( d ); e.push_back( 8 ); same( d, r ); r.push_back( 8 ); same( e, r ); }
}
struct pair_of { int a, b; };
DRIVER( c15_members ) { circular_deque< pair_of > d( 3 ); int n = vp_choice( "size", 1, 5 ), k = vp_choice( "popped", 0, 4 ); for ( int i = 0; i < k; ++i ) { d.push_back( { 0, 0 } ); d.pop_front(); } for ( int i = 0; i < n; ++i ) d.push_back( { i, 10 * i } ); int j = 0; for ( auto i = d.begin(); i != d.end(); i++, ++j ) { vp_assert( i->a == j && i->b == 10 * j, "an iterator gives access to the members of its element" ); i->b = j; } const circular_deque< pair_of >& c = d; j = 0; for ( auto i = c.begin(); i != c.end(); ++i, ++j ) vp_assert( i->a == j && i->b == j, "and changes them in place" ); vp_assert( j == n, "iteration ends after the last element" ); }
DRIVER( c15_deque_0 ) { history( 0, VP_N( 4, 5 ) ); }
DRIVER( c15_deque_1 ) { history( 1, VP_N( 4, 5 ) ); }
DRIVER( c15_deque_2 ) { history( 2, VP_N( 5, 6 ) ); }
DRIVER( c15_deque_3 ) { history( 3, VP_N( 5, 6 ) ); }
// frames: the last F frames can be read by number or counted back, older and newer ones cannot
DRIVER( c15_frames ) {
	size_t F = size_t( vp_choice( "frames", 1, 3 ) ), C = size_t( vp_choice( "channels", 1, 2 ) ); int n = vp_choice( "added", 0, VP_N( 5, 8 ) );
	circular_frame_buffer< double, int > b( C, F ); double val[ 9 ][ 2 ];
	vp_assert( b.channel_size() == C && b.frame_size() == 0, "a new buffer has its channels and no frames" );
	for ( int f = 0; f < n; ++f ) {
		b.add_frame(); vp_assert( b.frame_size() == size_t( f ) + 1, "adding a frame counts" );
		for ( size_t c = 0; c < C; ++c ) { double v = vp_real( "value" ); val[ f ][ c ] = v; if ( c % 2 == 0 ) b[ c ] = v; else b.at( size_t( f ), c ) = v; }
	}
	const auto& k = b;
	for ( int f = 0; f < n + 2; ++f ) for ( size_t c = 0; c < C; ++c ) {
		bool kept = f < n && f + int( F ) >= n;
		if ( kept ) { vp_assert( k.at( size_t( f ), c ) == val[ f ][ c ] && b.at( size_t( f ), c ) == val[ f ][ c ] && k( size_t( f ), c ) == val[ f ][ c ] && b( size_t( f ), c ) == val[ f ][ c ], "a frame that is still stored has its values" ); vp_assert( k.reverse( size_t( n - 1 - f ), c ) == val[ f ][ c ] && b.reverse( size_t( n - 1 - f ), c ) == val[ f ][ c ], "counting back finds the same frame" ); }
		else vp_assert( vp_throws( [&] { b.at( size_t( f ), c ); } ) && vp_throws( [&] { k.at( size_t( f ), c ); } ), "a frame that is not stored any more or not yet is an error" );
	}
	vp_assert( vp_throws( [&] { b.at( n ? size_t( n - 1 ) : 0, C ); } ) && vp_throws( [&] { k.at( n ? size_t( n - 1 ) : 0, C ); } ), "a channel that does not exist is an error" );
	if ( n ) for ( size_t c = 0; c < C; ++c ) vp_assert( k[ c ] == val[ n - 1 ][ c ], "the current frame is the latest" );
}
DRIVER( c15_frames_interpolate ) {
	circular_frame_buffer< double, int > b( 2, 3 ); double v[ 5 ]; int n = vp_choice( "added", 2, 5 );
	for ( int f = 0; f < n; ++f ) { b.add_frame(); v[ f ] = vp_real( "value" ); b[ 1 ] = v[ f ]; b[ 0 ] = 0; }
	double p = vp_real_in( "pos", 0, 1 ); int f = vp_choice( "frame", 0, 4 ); vp_assume( f + 1 < n && f + 3 >= n );
	vp_assert( b.get_interpolated_value( size_t( f ), 1, p ) == ( 1 - p ) * v[ f ] + p * v[ f + 1 ], "interpolating mixes a frame with the next" );
	vp_assert( vp_throws( [&] { b.get_interpolated_value( size_t( n ), 1, p ); } ) && vp_throws( [&] { b.get_interpolated_value( size_t( f ), 2, p ); } ), "frames and channels that do not exist are errors" );
	if ( n > 3 ) vp_assert( vp_throws( [&] { b.get_interpolated_value( size_t( n - 4 ), 1, p ); } ), "a frame that is not stored any more is an error" );
}
DRIVER( c15_frames_channels ) {
	circular_frame_buffer< double, string > b( 0, 2 );
	vp_assert( b.add_channel( "x" ) == 0 && b.add_channel( "y" ) == 1 && b.channel_size() == 2, "channels get consecutive numbers" );
	vp_assert( b.find_channel( "x" ) == 0 && b.find_channel( "y" ) == 1 && b.find_channel( "z" ) == no_index && b.get_label( 1 ) == "y", "channels are found by label" );
	vp_assert( b.find_or_add_channel( "y" ) == 1 && b.channel_size() == 2 && b.find_or_add_channel( "z" ) == 2 && b.channel_size() == 3, "a missing channel is added once" );
	for ( int f = 0; f < 3; ++f ) { b.add_frame(); for ( size_t c = 0; c < 3; ++c ) b[ c ] = f * 10.0 + double( c ); }
	vp_assert( b.at( 1, 0 ) == 10 && b.at( 1, 2 ) == 12 && b.at( 2, 1 ) == 21, "adding channels keeps room for all frames" );
	b.set_label( 0, "w" ); vp_assert( b.find_channel( "w" ) == 0 && b.find_channel( "x" ) == no_index, "a renamed channel is found by its new label only" );
	b.resize_buffer( 4, 3, 7.0 ); vp_assert( b( 0, 0 ) == 7 && b( 3, 2 ) == 7, "resizing resets the contents" );
	b.resize_buffer( 5, 1.5 ); vp_assert( b( 4, 2 ) == 1.5 && b( 0, 0 ) == 1.5, "resizing the number of frames resets the contents" );
	int r = vp_choice( "resize", 0, 1 ); size_t F = size_t( vp_choice( "frames", 1, 4 ) ); if ( r ) b.resize_buffer( F, 0.5 ); else b.resize_buffer( F, 4, 0.5 ); size_t C = b.channel_size(); vp_assert( C == ( r ? 3u : 4u ), "resizing sets the number of channels" );
	for ( int f = 0; f < 6; ++f ) { b.add_frame(); for ( size_t c = 0; c < C; ++c ) { vp_assert( f >= int( F ) || b[ c ] == 0.5, "a new frame has the given value" ); b[ c ] = f + 0.25 * double( c ); } }
	for ( size_t f = 0; f < F; ++f ) for ( size_t c = 0; c < C; ++c ) vp_assert( b.reverse( f, c ) == 5.0 - double( f ) + 0.25 * double( c ), "after resizing as many frames are kept as were asked for" );
}
DRIVER( c15_frames_twice ) {
	circular_frame_buffer< double, int > b( 0, 2 ); b.add_channel( 5 ); b.add_channel( 6 ); double v[ 4 ]; int n = vp_choice( "added", 1, 3 ); for ( int f = 0; f < n; ++f ) { b.add_frame(); b[ 0 ] = f; b[ 1 ] = v[ f ] = vp_real( "value" ); }
	vp_assert( vp_throws( [&] { b.add_channel( 5 + vp_choice( "label", 0, 1 ) ); } ) && b.channel_size() == 2 && b.frame_size() == size_t( n ) && b.reverse( 0, 1 ) == v[ n - 1 ] && b.reverse( 0, 0 ) == n - 1 && ( n < 2 || b.reverse( 1, 1 ) == v[ n - 2 ] ), "a label in use cannot be given to another channel, which changes nothing" );
}
DRIVER( c15_deque_own ) {
	size_t cap = size_t( vp_choice( "capacity", 0, 3 ) ); circular_deque< int > d( cap ); std::vector< int > r; int n = vp_choice( "size", 1, 4 ); for ( int i = 0; i < n; ++i ) { int v = vp_int( "value", -9, 9 ); if ( vp_choice( "side", 0, 1 ) ) { d.push_back( v ); r.push_back( v ); } else { d.push_front( v ); r.insert( r.begin(), v ); } }
	int e = r[ size_t( vp_choice( "which", 0, 1 ) ) * ( r.size() - 1 ) ]; int& x = e == r.front() ? d.front() : d.back(); e = x; if ( vp_choice( "end", 0, 1 ) ) { d.push_back( x ); r.push_back( e ); } else { d.push_front( x ); r.insert( r.begin(), e ); } same( d, r );
}
// ---- larger sizes
DRIVER( c15_size_deque ) {
	int n = vp_size_to( "size", 140, 1100 ), cap = vp_choice( "capacity", 0, 2 ); circular_deque< int > d( size_t( cap == 0 ? 0 : cap == 1 ? n : 7 ) ); std::vector< int > r; for ( int i = 0; i < n; ++i ) { d.push_back( i ); r.push_back( i ); if ( i % 3 == 2 ) { d.pop_front(); r.erase( r.begin() ); } }
	same( d, r ); for ( int i = 0; i < n; ++i ) { d.push_front( -i ); r.insert( r.begin(), -i ); if ( i % 4 == 3 ) { d.pop_back(); r.pop_back(); } } same( d, r ); d.reserve( size_t( 3 * n ) ); same( d, r ); circular_deque< int > e( d ); same( e, r );
}
DRIVER( c15_size_frames ) {
	int n = vp_size_to( "size", 140, 1100 ); size_t F = size_t( vp_choice( "frames", 0, 1 ) ? n : 3 ); circular_frame_buffer< double, int > b( 2, F ); int m = n + n / 2; for ( int f = 0; f < m; ++f ) { b.add_frame(); b[ 0 ] = f; b[ 1 ] = -f; }
	for ( int f = 0; f < m; ++f ) if ( f + int( F ) >= m ) vp_assert( b.at( size_t( f ), 0 ) == f && b.at( size_t( f ), 1 ) == -f, "the last frames are kept" ); else vp_assert( vp_throws( [&] { b.at( size_t( f ), 0 ); } ), "older frames are refused" ); vp_assert( b.frame_size() == size_t( m ), "all frames are counted" );
}
