// Definitions of the out-of-line helpers of the C++ library that containers call.  They have the
// documented effect on the container's order and contents; balancing and hashing quality, which
// no caller can observe, are left out.
#include <map>
#include <unordered_map>
#include <list>
namespace std {
	static _Rb_tree_node_base* inc( _Rb_tree_node_base* x ) {
		if ( x->_M_right != 0 ) { x = x->_M_right; while ( x->_M_left != 0 ) x = x->_M_left; }
		else { _Rb_tree_node_base* y = x->_M_parent; while ( x == y->_M_right ) { x = y; y = y->_M_parent; } if ( x->_M_right != y ) x = y; }
		return x;
	}
	static _Rb_tree_node_base* dec( _Rb_tree_node_base* x ) {
		if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) x = x->_M_right;
		else if ( x->_M_left != 0 ) { _Rb_tree_node_base* y = x->_M_left; while ( y->_M_right != 0 ) y = y->_M_right; x = y; }
		else { _Rb_tree_node_base* y = x->_M_parent; while ( x == y->_M_left ) { x = y; y = y->_M_parent; } x = y; }
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw() { return inc( x ); }
	const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x ) throw() { return inc( const_cast<_Rb_tree_node_base*>( x ) ); }
	_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw() { return dec( x ); }
	const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x ) throw() { return dec( const_cast<_Rb_tree_node_base*>( x ) ); }
	void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw() {
		x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
		if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; }
		else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
	}
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& h ) throw() {
		_Rb_tree_node_base* next = 0;
		auto replace = [&]( _Rb_tree_node_base* a, _Rb_tree_node_base* b ) {
			if ( h._M_parent == a ) h._M_parent = b; else if ( a->_M_parent->_M_left == a ) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
			if ( b ) b->_M_parent = a->_M_parent;
		};
		(void)next;
		if ( z->_M_left == 0 ) replace( z, z->_M_right );
		else if ( z->_M_right == 0 ) replace( z, z->_M_left );
		else {
			_Rb_tree_node_base* y = z->_M_right; while ( y->_M_left ) y = y->_M_left;
			if ( y->_M_parent != z ) { replace( y, y->_M_right ); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
			replace( z, y ); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		}
		if ( h._M_parent == 0 ) { h._M_left = &h; h._M_right = &h; }
		else { _Rb_tree_node_base* m = h._M_parent; while ( m->_M_left ) m = m->_M_left; h._M_left = m; m = h._M_parent; while ( m->_M_right ) m = m->_M_right; h._M_right = m; }
		return z;
	}
	namespace __detail {
		std::size_t _Prime_rehash_policy::_M_next_bkt( std::size_t n ) const { return n < 11 ? 11 : n; }
		std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash( std::size_t, std::size_t, std::size_t ) const { return std::make_pair( false, (std::size_t)0 ); }
		void _List_node_base::_M_hook( _List_node_base* const p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
	}
}
// shell patterns: * ? [set] [!set], no escapes
static bool fn_set( const char*& p, char c ) {
	bool neg = *p == '!' || *p == '^', hit = false; if ( neg ) ++p;
	const char* first = p;
	while ( *p && ( *p != ']' || p == first ) ) { char lo = *p++, hi = lo; if ( *p == '-' && p[ 1 ] && p[ 1 ] != ']' ) { hi = p[ 1 ]; p += 2; } if ( (unsigned char)lo <= (unsigned char)c && (unsigned char)c <= (unsigned char)hi ) hit = true; }
	if ( *p == ']' ) ++p;
	return hit != neg;
}
static int fn_match( const char* p, const char* s, int flags, const char* from ) {
	const int pathname = 1, noescape = 2, period = 4, leading_dir = 8, casefold = 16; auto low = [=]( char c ) { return ( flags & casefold ) && c >= 'A' && c <= 'Z' ? char( c + 32 ) : c; };
	for ( ; *p; ) {
		bool hidden = ( flags & period ) && *s == '.' && ( s == from || ( ( flags & pathname ) && s[ -1 ] == '/' ) ), slash = ( flags & pathname ) && *s == '/';
		if ( *p == '*' ) { if ( hidden ) return 1; while ( *p == '*' ) ++p; for ( ; ; ++s ) { if ( fn_match( p, s, flags, from ) == 0 ) return 0; if ( !*s || ( ( flags & pathname ) && *s == '/' ) ) return 1; } }
		if ( !*s ) return 1;
		if ( *p == '?' ) { if ( hidden || slash ) return 1; ++p; ++s; continue; }
		if ( *p == '[' ) { const char* q = p + 1; const char* e = q; if ( *e == '!' || *e == '^' ) ++e; if ( *e == ']' ) ++e; while ( *e && *e != ']' ) ++e; if ( *e ) { if ( hidden || slash || !fn_set( q, *s ) ) return 1; p = q; ++s; continue; } }
		if ( *p == '\\' && !( flags & noescape ) && p[ 1 ] ) ++p;
		if ( low( *p ) != low( *s ) ) return 1;
		++p; ++s;
	}
	return *s && !( ( flags & leading_dir ) && *s == '/' ) ? 1 : 0;
}
extern "C" int fnmatch( const char* p, const char* s, int flags ) { return fn_match( p, s, flags, s ); }
