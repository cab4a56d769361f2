From 395403996d706601fcfdb051c658642c4c0cecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 01/73] fix: container_tools, char_stream, pattern_match and
 system_tools build with GCC and Clang

---
 flut/char_stream.hpp     |  2 ++
 flut/container_tools.hpp | 10 ++++++----
 flut/string_tools.cpp    |  2 +-
 flut/system_tools.cpp    |  2 ++
 flut/system_tools.hpp    |  1 +
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..d8626b4 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -6,6 +6,8 @@
 #include "system/error_code.hpp"
 #include "system/path.hpp"
 #include "flag_set.hpp"
+#include <cstring>
+#include <cstdlib>
 
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( push )
diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..1035cd6 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -2,6 +2,8 @@
 
 #include "flut/system/types.hpp"
 #include "system/assert.hpp"
+#include <algorithm>
+#include <iterator>
 #include <numeric>
 
 namespace flut
@@ -31,7 +33,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +68,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +79,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..581193b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
diff --git a/flut/system_tools.cpp b/flut/system_tools.cpp
index c3d8d1e..f1a193d 100644
--- a/flut/system_tools.cpp
+++ b/flut/system_tools.cpp
@@ -5,6 +5,8 @@
 #	include <conio.h>
 #	include <shlobj.h>
 #	pragma warning( disable: 4996 )
+#else
+#	include <cxxabi.h>
 #endif
 
 #include <fstream>
diff --git a/flut/system_tools.hpp b/flut/system_tools.hpp
index c25ee72..a20b030 100644
--- a/flut/system_tools.hpp
+++ b/flut/system_tools.hpp
@@ -3,6 +3,7 @@
 #include "flut/system/platform.hpp"
 #include "flut/system/path.hpp"
 #include "flut/system/error_code.hpp"
+#include <typeinfo>
 
 namespace flut
 {
-- 
2.43.0


From 1e4d2d1f08dd7732274c133328b5760bd7fa5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:30 +0000
Subject: [PATCH 02/73] fix: filesystem, prop_node_tools and pattern_matcher
 build with GCC and Clang

---
 flut/filesystem.cpp      | 9 ++++++---
 flut/pattern_matcher.hpp | 7 ++++---
 flut/prop_node.hpp       | 2 +-
 flut/prop_node_tools.cpp | 3 ++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..9db7134 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -8,8 +8,11 @@
 #	include <conio.h>
 #	include <shlobj.h>
 #	pragma warning( disable: 4996 )
+#	include <direct.h>
+#else
+#	include <unistd.h>
+#	include <sys/stat.h>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +36,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +85,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index 44b892c..abaa39a 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -24,12 +24,13 @@ namespace flut
 		template< typename T > bool operator()( const T* str ) const { return operator()( static_cast< const string& >( *str ) ); }
 
 		template< typename It > It find_match( It begin, It end ) const {
-			while ( begin != end && !match( static_cast< const string& >( *begin ) ) ) ++begin;
+			while ( begin != end && !( *this )( static_cast< const string& >( *begin ) ) ) ++begin;
+			return begin;
 		}
 
 		vector< string > patterns;
 	};
-
-	IS_PROP_NODE_CONSTRUCTABLE( pattern_matcher );
 }
 
+IS_PROP_NODE_CONSTRUCTABLE( flut::pattern_matcher );
+
diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..56308d7 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -255,7 +255,7 @@ namespace flut
 }
 
 #define IS_PROP_NODE_CONSTRUCTABLE( _class_name_ ) \
-template<> struct ::flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
+template<> struct flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
 
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..2a53d85 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream cs( str, "\n\r\t\v;" );
+		return parse_prop( cs, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From cd8ba9e970cdbebc5d9b096cbf92a46ed47c8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:30 +0000
Subject: [PATCH 03/73] fix: circular_frame_buffer used undeclared members and
 dropped a return

---
 flut/buffer/circular_frame_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..3f3d76a 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,15 +32,15 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 < frame_size() && channel < channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
-- 
2.43.0


From 495cd6a21afe4597d3f5cea1fa2e209af9423b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:30 +0000
Subject: [PATCH 04/73] fix: headers include what they use and avoid MSVC-only
 constructs

---
 flut/buffer/buffer_access.hpp   | 1 +
 flut/buffer/data_algorithms.hpp | 1 +
 flut/circular_deque.hpp         | 5 ++++-
 flut/container_tools.hpp        | 1 +
 flut/debug_tools.hpp            | 1 +
 flut/dictionary.hpp             | 4 ++++
 flut/factory.hpp                | 1 +
 flut/flat_map.hpp               | 2 ++
 flut/math/angle.hpp             | 1 +
 flut/math/bounding_box.hpp      | 1 +
 flut/math/bounds.hpp            | 1 +
 flut/math/catmull_rom.hpp       | 8 +++++++-
 flut/math/delayer.hpp           | 1 +
 flut/math/irange.hpp            | 4 ++--
 flut/math/linear_regression.hpp | 2 +-
 flut/math/optional.hpp          | 1 +
 flut/math/polynomial.hpp        | 3 +++
 flut/memoize.hpp                | 2 ++
 flut/sorted_vector.hpp          | 3 +++
 flut/system/profiler_config.hpp | 2 ++
 20 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/flut/buffer/buffer_access.hpp b/flut/buffer/buffer_access.hpp
index ddb562c..9c49e30 100644
--- a/flut/buffer/buffer_access.hpp
+++ b/flut/buffer/buffer_access.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <utility>
 
diff --git a/flut/buffer/data_algorithms.hpp b/flut/buffer/data_algorithms.hpp
index e4fa6b4..0b277e0 100644
--- a/flut/buffer/data_algorithms.hpp
+++ b/flut/buffer/data_algorithms.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "flut/table.hpp"
+#include "flut/storage.hpp"
 #include <vector>
 
 namespace flut
diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..b79ccae 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <iterator>
+#include "flut/system/types.hpp"
 #include "flut/dynarray.hpp"
 #include "flut/system/assert.hpp"
 
@@ -53,7 +56,7 @@ namespace flut
 			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 1035cd6..b998a0e 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <iterator>
 #include <numeric>
+#include <ostream>
 
 namespace flut
 {
diff --git a/flut/debug_tools.hpp b/flut/debug_tools.hpp
index a91b84d..d9e9a38 100644
--- a/flut/debug_tools.hpp
+++ b/flut/debug_tools.hpp
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <functional>
+#include <iomanip>
 #include "system/path.hpp"
 
 namespace flut
diff --git a/flut/dictionary.hpp b/flut/dictionary.hpp
index 2899a28..b2fe094 100644
--- a/flut/dictionary.hpp
+++ b/flut/dictionary.hpp
@@ -1,6 +1,10 @@
 #pragma once
 
 #include "system/types.hpp"
+#include "system/assert.hpp"
+#include "string_tools.hpp"
+#include <algorithm>
+#include <initializer_list>
 
 namespace flut
 {
diff --git a/flut/factory.hpp b/flut/factory.hpp
index 86510f0..bbe5621 100644
--- a/flut/factory.hpp
+++ b/flut/factory.hpp
@@ -5,6 +5,7 @@
 #include "system/assert.hpp"
 #include "system/platform.hpp"
 #include "flat_map.hpp"
+#include "system_tools.hpp"
 
 // need for demangling with GCC
 #ifndef FLUT_COMP_MSVC
diff --git a/flut/flat_map.hpp b/flut/flat_map.hpp
index cc5574d..6b5112c 100644
--- a/flut/flat_map.hpp
+++ b/flut/flat_map.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "system/assert.hpp"
+#include "string_tools.hpp"
 #include <algorithm>
 #include <vector>
 
diff --git a/flut/math/angle.hpp b/flut/math/angle.hpp
index 9b2e2fe..e4391ed 100644
--- a/flut/math/angle.hpp
+++ b/flut/math/angle.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include "math.hpp"
+#include "flut/char_stream.hpp"
 #include "result_type.hpp"
 #include "flut/system/assert.hpp"
 
diff --git a/flut/math/bounding_box.hpp b/flut/math/bounding_box.hpp
index 677c4c8..4ed933d 100644
--- a/flut/math/bounding_box.hpp
+++ b/flut/math/bounding_box.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "flut/math/math.hpp"
+#include "flut/math/vec3_type.hpp"
 
 namespace flut
 {
diff --git a/flut/math/bounds.hpp b/flut/math/bounds.hpp
index 6845b96..c3c2525 100644
--- a/flut/math/bounds.hpp
+++ b/flut/math/bounds.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "math.hpp"
+#include "flut/prop_node.hpp"
 
 namespace flut
 {
diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a1b8ced..3f87db1 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -1,5 +1,11 @@
 #pragma once
 
+#include <algorithm>
+#include <cmath>
+#include <vector>
+#include "flut/system/types.hpp"
+#include "flut/system/assert.hpp"
+
 namespace flut
 {
 	template< typename P >
@@ -67,7 +73,7 @@ namespace flut
 		{
 			flut_assert( points.size() >= 4 && times.size() == ( points.size() - 2 ) );
 			segments_.reserve( points.size() - 4 );
-			for ( size_t i = 0; i <= points.size() - 4 )
+			for ( size_t i = 0; i <= points.size() - 4; ++i )
 				segments_.emplace_back( points[ i ], points[ i + 1 ], points[ i + 2 ], points[ i + 3 ] );
 		}
 
diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index 6af8783..a55530c 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include "flut/system/types.hpp"
 
 namespace flut
 {
diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 4e62555..6d4ce68 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <xutility>
+#include <iterator>
 
 namespace flut
 {
@@ -18,7 +18,7 @@ namespace flut
 			T value_;
 			T operator-( const iterator& other ) { return value_ - other.value_; }
 			T operator++() { return ++value_; }
-			T operator++( int ) { return value++; }
+			T operator++( int ) { return value_++; }
 			bool operator==( const iterator& other ) { return other.value_ == value_; }
 			bool operator!=( const iterator& other ) { return other.value_ != value_; }
 			T operator*() { return value_; }
diff --git a/flut/math/linear_regression.hpp b/flut/math/linear_regression.hpp
index c2df43d..2b27d96 100644
--- a/flut/math/linear_regression.hpp
+++ b/flut/math/linear_regression.hpp
@@ -3,7 +3,7 @@
 #include <numeric>
 #include "math.hpp"
 #include "polynomial.hpp"
-#include <xtr1common>
+#include "flut/container_tools.hpp"
 
 namespace flut
 {
diff --git a/flut/math/optional.hpp b/flut/math/optional.hpp
index 98b533c..4117646 100644
--- a/flut/math/optional.hpp
+++ b/flut/math/optional.hpp
@@ -3,6 +3,7 @@
 #include <limits>
 #include <type_traits>
 #include "flut/char_stream.hpp"
+#include "math.hpp"
 
 namespace flut
 {
diff --git a/flut/math/polynomial.hpp b/flut/math/polynomial.hpp
index ab0d7d2..73888ff 100644
--- a/flut/math/polynomial.hpp
+++ b/flut/math/polynomial.hpp
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <array>
+#include <cstddef>
+#include <iterator>
+#include <utility>
 #include <initializer_list>
 
 namespace flut
diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index c6bfd93..9cd8f6f 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <map>
+#include <tuple>
 
 namespace flut
 {
diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..19635ba 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <vector>
+
 namespace flut
 {
 	template< typename T >
diff --git a/flut/system/profiler_config.hpp b/flut/system/profiler_config.hpp
index 40937b9..c984302 100644
--- a/flut/system/profiler_config.hpp
+++ b/flut/system/profiler_config.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "flut/system/log.hpp"
+
 #ifdef FLUT_ENABLE_PROFILER
 #	include "flut/system/profiler.hpp"
 #	define FLUT_PROFILE_FUNCTION ::flut::scoped_section_profiler _PROFILE_SECTION_( __FUNCTION__ )
-- 
2.43.0


From 03b77bbf48511b68ac03456862cc7ebabc666652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 05/73] fix: data_header label lookup stays in step with the
 label list

---
 flut/buffer/data_header.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..207eb69 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		data_header( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
@@ -35,8 +35,9 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			if ( find( labels_[ idx ] ) == idx ) label_indices_.erase( labels_[ idx ] ); // remove previous label
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			label_indices_[ label ] = idx;
 			return idx;
 		}
 
-- 
2.43.0


From bf54f7789de53ddfd940a77c34b5e89ece616cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 06/73] fix: circular_frame_buffer bounds check underflowed
 before the buffer was full, add_channel lost the buffer size

---
 flut/buffer/circular_frame_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 3f3d76a..620d096 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
@@ -52,11 +52,11 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
-- 
2.43.0


From 1fbf5df1373878410e02a90b1788b2b27b80803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 07/73] fix: dynarray moved-from and self-assigned arrays kept
 dangling ends

---
 flut/dynarray.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..e6ca380 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include "system/types.hpp"
+#include "system/assert.hpp"
 
 namespace flut
 {
@@ -16,9 +17,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) { std::swap( data_, o.data_ ); std::swap( end_, o.end_ ); return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From 1c5f4584549028323cc9cdcbc5885e85cf11252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 08/73] fix: quoting keeps bytes above 127 and NUL intact

---
 flut/string_tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 581193b..13787ad 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -145,7 +145,7 @@ namespace flut
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 32 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From 240eab51584dedf350d90b35d81e4b7f329dee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 09/73] fix: decoding a trailing backslash or lone quote loops
 or reads past the end

---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 13787ad..ce27247 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
@@ -182,11 +182,11 @@ namespace flut
 
 	FLUT_API string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From da8c5f857a8253795d6919b46bc3bee96470cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 10/73] fix: needs_quotes covers the operators and quotes of
 the prop reader

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index ce27247..37007b0 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || string( "\"\\'={}%;" ).find( c ) != string::npos )
 				return true;
 		return false;
 	}
-- 
2.43.0


From 832053b4ccb6fb5c506a088e1b947d8a371c736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 11/73] fix: right_str accepts counts larger than the string,
 str_ends_with compares the end

---
 flut/string_tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..098054a 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -22,7 +22,7 @@ namespace flut
 
 	/// get right n characters, if n is negative, get string WITHOUT the right n characters
 	inline string right_str( const string& str, int n )
-	{ if ( n >= 0 ) return str.substr( str.size() - n, string::npos ); else return str.substr( size_t( -n ), string::npos ); }
+	{ if ( n >= 0 ) return str.substr( str.size() - std::min( str.size(), size_t( n ) ), string::npos ); else return str.substr( std::min( str.size(), size_t( -n ) ), string::npos ); }
 
 	/// get index of a substring in a string
 	inline index_t in_str( const string& str, const string& substr, index_t p = 0 ) { return str.find( substr, p ); }
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.compare( s1 - s2, s2, substr ) == 0 ); }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From e297f01f9702b0e692ecbd22db867bfe76463b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 12/73] fix: scan_str counts the last value when it ends the
 string

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 098054a..82b20a9 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -52,7 +52,7 @@ namespace flut
 
 	inline int scan_str_impl( char_stream& str ) { return 0; }
 	template< typename T, typename... Args > int scan_str_impl( char_stream& str, T& v, Args&... args )
-	{ str >> v; return str.good() ? scan_str_impl( str, args... ) + 1 : 0; }
+	{ str >> v; return !str.fail() ? scan_str_impl( str, args... ) + 1 : 0; }
 
 	/// read variables from string
 	template< typename... Args > int scan_str( const string& s, Args&... args )
-- 
2.43.0


From 88eedced358414634c2f70fe3283bd94e6ef34d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 13/73] fix: stringf and formatted log messages are not
 truncated

---
 flut/string_tools.cpp | 18 +++++++++++++++---
 flut/string_tools.hpp |  2 ++
 flut/system/log.cpp   |  6 +-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 37007b0..a5b19f9 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -66,6 +66,19 @@ namespace flut
 		else return make_pair( trim_str( s.substr( 0, pos ) ), trim_str( mid_str( s, pos + 1 ) ) );
 	}
 
+	string vstringf( const char* format, va_list list )
+	{
+		va_list list_copy;
+		va_copy( list_copy, list );
+		int len = vsnprintf( nullptr, 0, format, list_copy );
+		va_end( list_copy );
+		if ( len <= 0 ) return string();
+
+		vector< char > buf( size_t( len ) + 1 );
+		vsnprintf( buf.data(), buf.size(), format, list );
+		return string( buf.data(), size_t( len ) );
+	}
+
 	string stringf( const char* format, ... )
 	{
 #ifdef FLUT_COMP_MSVC
@@ -74,10 +87,9 @@ namespace flut
 #endif
 		va_list args;
 		va_start( args, format );
-		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		string str = vstringf( format, args );
 		va_end( args );
-		return string( buf );
+		return str;
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 82b20a9..ef2738a 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <algorithm>
 #include <stdlib.h>
+#include <stdarg.h>
 
 namespace flut
 {
@@ -60,6 +61,7 @@ namespace flut
 
 	/// get formatted string (printf style)
 	FLUT_API string stringf( const char* format, ... );
+	FLUT_API string vstringf( const char* format, va_list list );
 
 	/// match pattern (glob, i.e. name* or name?)
 	FLUT_API bool pattern_match( const string& str, const string& pattern );
diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..0ba901f 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -20,11 +20,7 @@ namespace flut
 		void log_vstring( level l, const char* format, va_list list )
 		{
 			if ( test_log_level( l ) )
-			{
-				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
-			}
+				log_string( l, vstringf( format, list ) ); // TODO: use string_view
 		}
 
 		void add_sink( sink* s )
-- 
2.43.0


From 75e1d516fb94e59e3d16810dedefa42c12b3caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 14/73] fix: char_stream::getc stays at the end of the buffer

---
 flut/char_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index d8626b4..e88b9b8 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -48,7 +48,7 @@ namespace flut
 
 		string get_line();
 		string get_token( const char* operators = "", const char* quotations = "\"" );
-		char getc() { char c = *cur_pos++; test_eof(); return c; }
+		char getc() { char c = *cur_pos; if ( !test_eof() ) { ++cur_pos; test_eof(); } return c; }
 		char peekc() { return *cur_pos; }
 
 		bool good() { return !buffer_flags.any(); }
-- 
2.43.0


From e79c71f53c981943cf1927f5307b4152ca9adeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 15/73] fix: copies of a char_stream do not point into the
 original

---
 flut/char_stream.cpp | 11 +++++++++++
 flut/char_stream.hpp |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..0098e29 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -16,6 +16,17 @@ namespace flut
 		init_buffer( str_buffer.c_str(), str_buffer.size() );
 	}
 
+	char_stream::char_stream( const char_stream& other ) :
+	radix( other.radix ),
+	str_buffer( other.str_buffer ),
+	buffer( other.buffer == other.str_buffer.c_str() ? str_buffer.c_str() : other.buffer ),
+	cur_pos( buffer + ( other.cur_pos - other.buffer ) ),
+	cur_pos_end( nullptr ),
+	buffer_end( buffer + ( other.buffer_end - other.buffer ) ),
+	delimiters_( other.delimiters_ ),
+	buffer_flags( other.buffer_flags )
+	{}
+
 	char_stream::char_stream( const path& filename, const char* delim ) :
 	char_stream( load_string( filename ), delim )
 	{}
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index e88b9b8..b0f1d78 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -31,6 +31,10 @@ namespace flut
 		/// construct char_stream with contents read from file
 		char_stream( const path& filename, const char* delim = default_delimiters() );
 
+		/// copies refer to their own string buffer, if any
+		char_stream( const char_stream& other );
+		char_stream& operator=( const char_stream& ) = delete;
+
 		~char_stream() {}
 
 		char_stream& operator>>( float& v ) { v = strtof( cur_pos, &cur_pos_end ); process_end_pos(); return *this; }
-- 
2.43.0


From a3a2cb4f3521eab9d11c3bbec9b539a4e539cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 16/73] fix: path extension ignores dots in folder names

---
 flut/system/path.cpp | 10 ++++++++--
 flut/system/path.hpp |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..b4a971b 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -11,7 +11,7 @@ namespace flut
 
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = last_dot_pos();
 		if ( n != string::npos ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
@@ -49,7 +49,7 @@ namespace flut
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = last_dot_pos();
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
@@ -87,6 +87,12 @@ namespace flut
 		return data_.find_last_of( "/\\" );
 	}
 
+	size_t path::last_dot_pos() const
+	{
+		size_t n = data_.find_last_of( "./\\" );
+		return n != string::npos && data_[ n ] == '.' ? n : string::npos; // ignore dots in folder names
+	}
+
 	flut::path& path::operator/=( const flut::string& p )
 	{
 		data_ += has_filename() ? preferred_separator() + p : p;
diff --git a/flut/system/path.hpp b/flut/system/path.hpp
index 1e55b3e..5daaa34 100644
--- a/flut/system/path.hpp
+++ b/flut/system/path.hpp
@@ -51,6 +51,7 @@ namespace flut
 
 	private:
 		size_t last_separator_pos() const;
+		size_t last_dot_pos() const;
 		flut::string data_;
 	};
 
-- 
2.43.0


From 2b94be77938e2cac127fb275994d7eb61bbd4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 17/73] fix: filename of a path without folder is the path
 itself

---
 flut/system/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index b4a971b..b63d8e1 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -56,7 +56,7 @@ namespace flut
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
-- 
2.43.0


From 5dda20ea835ec54a1528a891a31e10ef82436bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 18/73] fix: parent_path and remove_filename keep the root
 folder

---
 flut/system/path.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index b63d8e1..b5c8b72 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -22,9 +22,7 @@ namespace flut
 
 	path& path::remove_filename()
 	{
-		size_t n = last_separator_pos();
-		if ( n != string::npos ) data_ = data_.substr( 0, n );
-		else data_.clear();
+		data_ = parent_path().data_;
 		return *this;
 	}
 
@@ -44,7 +42,7 @@ namespace flut
 	path path::parent_path() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( 0, n ) ) : path();
+		return n != string::npos ? path( data_.substr( 0, n > 0 ? n : 1 ) ) : path(); // keep root
 	}
 
 	path path::extension() const
@@ -79,7 +77,8 @@ namespace flut
 
 	bool path::has_parent_path() const
 	{
-		return last_separator_pos() != npos;
+		size_t n = last_separator_pos();
+		return n != npos && ( n > 0 || data_.size() > 1 ); // root has no parent
 	}
 
 	size_t path::last_separator_pos() const
-- 
2.43.0


From b9430a17aa9daeb7b695557ee51d98d746e4d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 19/73] fix: get_filename_folder of a plain filename is empty

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index a5b19f9..de37e35 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -233,7 +233,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string(); // no folder
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From a1ff12f3379dfd5a8c7a5963108d628fbfceaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 20/73] fix: version parsed from a string has no uninitialized
 fields and keeps its postfix

---
 flut/system/version.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 78409e9..c53f2d2 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -11,11 +11,11 @@ namespace flut
 		version( int maj, int min, int bugfix, int bld = 0, string post = "" ) :
 			major( maj ), minor( min ), patch( bugfix ), build( bld ), postfix( post ) {}
 
-		version( const string& version ) {
+		version( const string& version ) : major( 0 ), minor( 0 ), patch( 0 ), build( 0 ) {
 			std::stringstream str( version );
 			char dummy;
-			str >> major >> dummy >> minor >> dummy >> patch >> dummy;
-			if ( str.good() ) str >> build;
+			str >> major >> dummy >> minor >> dummy >> patch;
+			if ( str.good() && str.peek() == '.' ) str >> dummy >> build;
 			if ( str.good() ) str >> postfix;
 		}
 
-- 
2.43.0


From 2b53326e14afea0b0a123995885850dbe99485ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 21/73] fix: without exceptions, conditional errors no longer
 exit unconditionally

---
 flut/system/assert.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/system/assert.hpp b/flut/system/assert.hpp
index 8f4c8ef..27c7f98 100644
--- a/flut/system/assert.hpp
+++ b/flut/system/assert.hpp
@@ -2,6 +2,7 @@
 
 #include "build_config.hpp"
 #include <cstdlib>
+#include <string>
 
 #if FLUT_USE_EXCEPTIONS
 #	include <stdexcept>
@@ -11,7 +12,8 @@
 	}
 	#define FLUT_EXCEPTION( message_ ) throw flut::exception( message_ )
 #else
-	#define FLUT_EXCEPTION( message_ ) std::cout << message_ << std::endl; exit( -1 )
+#	include <iostream>
+	#define FLUT_EXCEPTION( message_ ) do { std::cout << message_ << std::endl; exit( -1 ); } while ( 0 )
 #endif
 
 #if FLUT_USE_ASSERT
-- 
2.43.0


From e0bb4e4ac649ae5496ebd45c34376eb7bb48e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 22/73] fix: assert and error macros do not capture a following
 else

---
 flut/system/assert.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flut/system/assert.hpp b/flut/system/assert.hpp
index 27c7f98..b748f0f 100644
--- a/flut/system/assert.hpp
+++ b/flut/system/assert.hpp
@@ -18,10 +18,10 @@
 
 #if FLUT_USE_ASSERT
 #define flut_assert( expression_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
 
 	#define flut_assert_msg( expression_, message_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
 #else
 	#define flut_assert( expression_ )
 	#define flut_assert_msg( expression_, message_ )
@@ -33,14 +33,14 @@
 
 /// conditional throw exception
 #define flut_error_if( condition_, message_ ) \
-	if ( condition_ ) flut_error( std::string( message_ ) )
+	if ( !( condition_ ) ) {} else flut_error( std::string( message_ ) )
 
 /// throw exception
 #define flut_validate( expression_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
 
 #define flut_validate_msg( expression_, message_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
 
 /// not implemented exception
 #define FLUT_NOT_IMPLEMENTED FLUT_EXCEPTION( std::string( __FUNCTION__ ) + "(): Function not implemented" );
-- 
2.43.0


From ef1efe60495560696590674cf8e190777b833587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 23/73] fix: timer uses a clock that cannot go backwards

---
 flut/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/timer.hpp b/flut/timer.hpp
index 6ffd5f4..eade4cf 100644
--- a/flut/timer.hpp
+++ b/flut/timer.hpp
@@ -32,7 +32,7 @@ namespace flut
 #if defined FLUT_USE_WINDOWS_PERFORMANCE_COUNTER
 		typedef windows_performance_counter_clock timer_t;
 #else
-		typedef std::chrono::high_resolution_clock timer_t;
+		typedef std::chrono::steady_clock timer_t;
 #endif
 		timer() : epoch( timer_t::now() ) {}
 		void reset() { epoch = timer_t::now(); }
-- 
2.43.0


From 1aceaaaaa3db82ebe7a0a3d4de3273007520b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 24/73] fix: interrupt flag can be raised from another thread

---
 flut/interruptible.cpp | 9 +++++++++
 flut/interruptible.hpp | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/flut/interruptible.cpp b/flut/interruptible.cpp
index 9036fde..8768315 100644
--- a/flut/interruptible.cpp
+++ b/flut/interruptible.cpp
@@ -5,6 +5,15 @@ namespace flut
 	interruptible::interruptible() : interrupt_flag_( false )
 	{}
 
+	interruptible::interruptible( const interruptible& other ) : interrupt_flag_( other.interrupt_flag_.load() )
+	{}
+
+	interruptible& interruptible::operator=( const interruptible& other )
+	{
+		interrupt_flag_ = other.interrupt_flag_.load();
+		return *this;
+	}
+
 	interruptible::~interruptible()
 	{}
 
diff --git a/flut/interruptible.hpp b/flut/interruptible.hpp
index 8f2c197..82bb17d 100644
--- a/flut/interruptible.hpp
+++ b/flut/interruptible.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "system/platform.hpp"
+#include <atomic>
 
 namespace flut
 {
@@ -8,12 +9,14 @@ namespace flut
 	{
 	public:
 		interruptible();
+		interruptible( const interruptible& other );
+		interruptible& operator=( const interruptible& other );
 		virtual ~interruptible();
 
 		virtual void interrupt() const;
 		bool test_interrupt_flag() const;
 
 	private:
-		mutable bool interrupt_flag_;
+		mutable std::atomic< bool > interrupt_flag_;
 	};
 }
-- 
2.43.0


From 60555d67d184b3a8c00daae879c54cc28c703891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 25/73] fix: delayers start with the initial value in every
 slot

---
 flut/math/delayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index a55530c..c3b7699 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -8,8 +8,9 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct delayer
 	{
-		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), data_{ init_value }, idx_( 0 ), time_( 0 ) {
+		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), idx_( 0 ), time_( 0 ) {
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
+			data_.fill( init_value );
 		}
 
 		void add_sample( const T& value, float delta_time ) {
@@ -38,8 +39,9 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct smooth_delayer
 	{
-		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), data_{ init_value }, idx_( 0 ), time_( 0 ), inter_( 0 ) {
+		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), idx_( 0 ), time_( 0 ), inter_( 0 ) {
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
+			data_.fill( init_value );
 		}
 
 		void add_sample( const T& value, float delta_time ) {
-- 
2.43.0


From 55c12a90f60e11ed79a3030935ce1f49f7a03be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 26/73] fix: vec4 operators include the w component

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From 8ca2b1a518d85984cfeafec40d39af3e48390a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 27/73] fix: copy_file keeps the destination when the source
 cannot be read, and reports failed writes

---
 flut/filesystem.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 9db7134..791a477 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -63,16 +63,18 @@ namespace flut
 	FLUT_API bool copy_file( const path& from, const path& to, bool overwrite )
 	{
 #ifdef FLUT_COMP_MSVC
-		return CopyFile( from.c_str(), to.c_str(), overwrite ) == TRUE;
+		return CopyFile( from.c_str(), to.c_str(), !overwrite ) == TRUE;
 #else
 		if ( overwrite || !file_exists( to ) )
 		{
 			std::ifstream src( from.str(), std::ios::binary );
-			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
+			bool has_data = src.peek() != std::ifstream::traits_type::eof();
+			if ( src.is_open() && !src.bad() ) // leave the destination alone if there is nothing to read
 			{
-				dst << src.rdbuf();
-				return true;
+				std::ofstream dst( to.str(), std::ios::binary );
+				if ( has_data ) dst << src.rdbuf();
+				dst.close();
+				return dst.good();
 			}
 		}
 		return false;
-- 
2.43.0


From d0048ec75fe3545aa8981ddf3fc5758b4149c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 28/73] fix: save_prop reports failed writes

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2a53d85..1881c3f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -238,7 +238,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.close();
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From bbc3272ec1e738ed1ea3a6786d0b4b85d2799a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 29/73] fix: table::resize allocates new rows, add_column uses
 its default value

---
 flut/table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..4e7d650 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,7 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +36,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
+			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : value;
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
-- 
2.43.0


From 7d92e80775df6e749738ae4b9d479e0e5f902ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 30/73] fix: table, storage, sorted_vector, flag_set and quat
 members that could not be instantiated

---
 flut/flag_set.hpp      | 2 +-
 flut/math/quat.hpp     | 2 +-
 flut/sorted_vector.hpp | 4 ++--
 flut/storage.hpp       | 8 +++++---
 flut/system/log.hpp    | 2 +-
 flut/table.hpp         | 2 +-
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..fc62922 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -27,7 +27,7 @@ namespace flut
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
-		flag_set& clear( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) clear( f ); return *this; }
+		flag_set& clear( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f, false ); return *this; }
 
 		void clear() { data = StorageT(0); }
 		bool any() const { return data != 0; }
diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..2649f8d 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -176,7 +176,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 19635ba..3e7b1e3 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -30,12 +30,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..1b6cbef 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -5,6 +5,8 @@
 #include "buffer/data_header.hpp"
 #include "math/vec3_type.hpp"
 #include "math/quat_type.hpp"
+#include <algorithm>
+#include <cmath>
 
 namespace flut
 {
@@ -78,13 +80,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { return (*this)[ find_channel( label ) ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +121,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
diff --git a/flut/system/log.hpp b/flut/system/log.hpp
index 98f4217..68b8ed5 100644
--- a/flut/system/log.hpp
+++ b/flut/system/log.hpp
@@ -18,7 +18,7 @@
 #define FLUT_LOG_LEVEL_CRITICAL 6
 #define FLUT_LOG_LEVEL_NONE 7
 
-#define flut_do_periodic( interval_, statement_ ) { static local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
+#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
 
 #define flut_logvar( var_ ) flut::log::trace( #var_"=", var_ )
 #define flut_logvar2( var1_, var2_ ) flut::log::trace( #var1_"=", var1_, "\t", #var2_"=", var2_ )
diff --git a/flut/table.hpp b/flut/table.hpp
index 4e7d650..8293fac 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -57,7 +57,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From 3ae20e2cd8312e7d92010e1a980dcbc17eb8aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 31/73] fix: circular_deque keeps its order when it grows,
 const back() is the last element

---
 flut/circular_deque.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index b79ccae..f3ecb85 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <iterator>
 #include "flut/system/types.hpp"
@@ -19,7 +20,7 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) { buffer_.insert( buffer_.begin() + front_, value ); front_ = ( front_ + 1 ) % capacity(); }
 			else back() = value;
 		}
 		void push_front( const T& value ) {
@@ -34,7 +35,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
@@ -45,7 +46,7 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) { std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() ); front_ = 0; buffer_.resize( std::max( s, size_ ) ); }
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
@@ -53,7 +54,7 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From 1ade97f63ebadc41f55bb5c56e9afbe9d4687b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 32/73] fix: load_xml rethrows the original exception

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 1881c3f..330b1bb 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -85,7 +85,7 @@ namespace flut
 		{
 			if ( try_set_error( ec, e.what() ) )
 				return prop_node();
-			else throw e;
+			else throw;
 		}
 	}
 
-- 
2.43.0


From 404c54689e7f26d33186c2aafa79e1d4ad723a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 33/73] fix: parse_prop reports errors through its error_code

---
 flut/prop_node_tools.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 330b1bb..659c414 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,8 +151,17 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		char_stream cs( str, "\n\r\t\v;" );
-		return parse_prop( cs, ec );
+		try
+		{
+			char_stream cs( str, "\n\r\t\v;" );
+			return parse_prop( cs, ec );
+		}
+		catch ( std::exception& e )
+		{
+			if ( try_set_error( ec, e.what() ) )
+				return prop_node();
+			else throw;
+		}
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 90ad14ac504708e2f6db5bd4f39d1666cd42f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 34/73] fix: clone of an empty pointer is an empty pointer

---
 flut/memory_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/memory_tools.hpp b/flut/memory_tools.hpp
index 2c6a684..08c4540 100644
--- a/flut/memory_tools.hpp
+++ b/flut/memory_tools.hpp
@@ -8,7 +8,7 @@ namespace flut
 	// create a new copy of unique_ptr
 	template< typename T >
 	std::unique_ptr< T > clone( const std::unique_ptr< T >& o )
-	{ return std::unique_ptr< T >( new T( *o ) ); }
+	{ return std::unique_ptr< T >( o ? new T( *o ) : nullptr ); }
 
 	// create a new copy of vector< unique_ptr >
 	template< typename T >
-- 
2.43.0


From 47c65bcc0057984aee8bc5e087e43ee6b0877979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 35/73] fix: hash functions can be included in several
 translation units

---
 flut/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/hash.hpp b/flut/hash.hpp
index d5a624e..e52e0ef 100644
--- a/flut/hash.hpp
+++ b/flut/hash.hpp
@@ -20,14 +20,14 @@ namespace flut
 		return *str ? hash_constexpr( str + 1, ( *str ^ last_value ) * fnv1a_64_prime ) : last_value;
 	}
 
-	hash_t hash( char const* str )
+	inline hash_t hash( char const* str )
 	{
 		hash_t ret = fnv1a_64_basis;
 		while ( *str ) { ret ^= *str; ret *= fnv1a_64_prime; ++str;	}
 		return ret;
 	}
 
-	hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
+	inline hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
 }
 
 constexpr unsigned long long operator""_hash( char const* p, size_t ) { return flut::hash_constexpr( p ); }
-- 
2.43.0


From 0939bc37021de59dc86d52ae4f1ffbd8ef388aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:42 +0000
Subject: [PATCH 36/73] fix: ending a profiler section that was never started
 is an error

---
 flut/system/profiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..503e0da 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -36,6 +36,7 @@ namespace flut
 	{
 		auto t = now();
 		flut_assert_msg( instance_thread_ == std::this_thread::get_id(), "Invalid thread ID" );
+		flut_assert_msg( current_section_ != root(), "No section to end" );
 		auto* s = &sections_[ current_section_->parent_id ];
 		current_section_->total_time += t - current_section_->epoch;
 		current_section_->overhead += duration_of_now;
-- 
2.43.0


From a3c38eacd452c7ebd94a7c80c1fd0de83763c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 37/73] fix: an empty quoted token directly before an operator
 is not lost

---
 flut/char_stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index 0098e29..5a0ce7c 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -51,6 +51,7 @@ namespace flut
 	flut::string char_stream::get_token( const char* operators, const char* quotations )
 	{
 		string s;
+		bool has_quotes = false;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -65,6 +66,7 @@ namespace flut
 			{
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
+				has_quotes = true;
 				char quote_char = getc();
 				while ( good() )
 				{
@@ -87,7 +89,7 @@ namespace flut
 			else if ( strchr( operators, *cur_pos_end ) )
 			{
 				// operator
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !has_quotes )
 					s = *cur_pos_end++; // token is an operator
 				else s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
-- 
2.43.0


From d7f7ed0f798cf72e585a5b930c1a727e19a0fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:59 +0000
Subject: [PATCH 38/73] fix: get_token keeps the part of a token before its
 quotes

---
 flut/char_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index 5a0ce7c..7a0283b 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -65,6 +65,7 @@ namespace flut
 			else if ( strchr( quotations, *cur_pos_end ) )
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) ); // keep the part before the quote
 				cur_pos = cur_pos_end;
 				has_quotes = true;
 				char quote_char = getc();
-- 
2.43.0


From e78047413c3a4c0a45e73c296ff36b63cafb4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 39/73] fix: bounds::soft_clamp can be instantiated, soft_clamp
 returns its value by reference like clamp

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..2ff6bbf 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
-- 
2.43.0


From 841337c7019a494e182c28d1fcea732b791a3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:27 +0000
Subject: [PATCH 40/73] fix: square_wave keeps its period for negative values

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 2ff6bbf..4d6fab6 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { return v - T(2) * floor( v / T(2) ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From 1904f4e804adfce41140cbbaa121bbb0b1c6ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 41/73] fix: vec3_type.hpp includes the math functions it uses

---
 flut/math/vec3_type.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/math/vec3_type.hpp b/flut/math/vec3_type.hpp
index 7234cba..0551308 100644
--- a/flut/math/vec3_type.hpp
+++ b/flut/math/vec3_type.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "flut/system/types.hpp"
+#include "flut/math/math.hpp"
 #include "flut/prop_node.hpp"
 
 namespace flut
-- 
2.43.0


From 4f12e64bd2be542699dc7da5d9d70edaf6f44a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:43 +0000
Subject: [PATCH 42/73] fix: catmull_rom evaluates the segment that contains t

---
 flut/math/catmull_rom.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index 3f87db1..2535bbd 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -78,8 +78,8 @@ namespace flut
 		}
 
 		P operator()( T t ) {
-			auto it = std::lower_bound( times_.begin(), times_.end(), t );
-			if ( it == times_.end() ) it = times_.begin();
+			auto it = std::upper_bound( times_.begin(), times_.end(), t );
+			if ( it != times_.begin() ) --it;
 			if ( it == times_.end() - 1 ) it = times_.end() - 2;
 			size_t index = it - times_.begin();
 			return segments_[ index ]( ( t - *it ) / ( *( it + 1 ) - *it ) );
-- 
2.43.0


From 3f06d38731d8dff684c8bcc52fa9e51eef4be892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 43/73] fix: quat_from_directions between opposite directions
 along x

---
 flut/math/quat.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 2649f8d..2f59a2c 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -142,7 +142,12 @@ namespace flut
 
 			auto clen = length( c );
 			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			{
+				// half turn around an axis perpendicular to source
+				vec3_<T> p = std::abs( s.x ) < T(0.9) ? vec3_<T>::unit_x() : vec3_<T>::unit_y();
+				p = normalized( p - dot_product( p, s ) * s );
+				return quat_<T>( 0, p.x, p.y, p.z );
+			}
 
 			c /= clen;
 			auto a = std::acos( d ) * T(0.5);
-- 
2.43.0


From 30912b8ded72508b49f5db705ff1b6b557d94f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 44/73] fix: an empty prop comment does not swallow the next
 line

---
 flut/prop_node_tools.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 659c414..f780c40 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -106,14 +106,17 @@ namespace flut
 	{
 		while ( true )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
+			// spaces are not delimiters
+			while ( str.good() && str.peekc() == ' ' )
+				str.getc();
+
+			if ( str.good() && str.peekc() == '%' )
 			{
 				// comment: skip rest of line
 				str.get_line();
 				continue;
 			}
-			else return trim_str( t );
+			else return trim_str( str.get_token( "={}%", "\"'" ) );
 		}
 	}
 
-- 
2.43.0


From e6dae184a9b79d814c16d8059f0ebac8091e9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:00 +0000
Subject: [PATCH 45/73] fix: quoted prop values keep surrounding spaces and
 comment characters

---
 flut/prop_node_tools.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index f780c40..45c2b1f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -116,6 +116,14 @@ namespace flut
 				str.get_line();
 				continue;
 			}
+			else if ( str.good() && ( str.peekc() == '\"' || str.peekc() == '\'' ) )
+			{
+				// quoted: the text is taken as it is
+				string t = str.get_token( "={}% ", "\"'" );
+				if ( str.good() && str.peekc() == ' ' )
+					t += trim_right_str( str.get_token( "={}%", "\"'" ) );
+				return t;
+			}
 			else return trim_str( str.get_token( "={}%", "\"'" ) );
 		}
 	}
-- 
2.43.0


From 0a0caed3c6df297bf4c62fbfd5a1107d37ca581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:00 +0000
Subject: [PATCH 46/73] fix: a line with only spaces does not end a prop file

---
 flut/prop_node_tools.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 45c2b1f..b43c4f5 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -102,7 +102,7 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
-	string get_prop_token( char_stream& str )
+	string get_prop_token( char_stream& str, bool allow_empty = false )
 	{
 		while ( true )
 		{
@@ -124,7 +124,10 @@ namespace flut
 					t += trim_right_str( str.get_token( "={}%", "\"'" ) );
 				return t;
 			}
-			else return trim_str( str.get_token( "={}%", "\"'" ) );
+
+			string t = trim_str( str.get_token( "={}%", "\"'" ) );
+			if ( !t.empty() || allow_empty || !str.good() )
+				return t;
 		}
 	}
 
@@ -133,7 +136,7 @@ namespace flut
 		string t = get_prop_token( str );
 		if ( t == "=" )
 		{
-			parent.set_value( get_prop_token( str ) );
+			parent.set_value( get_prop_token( str, true ) );
 		}
 		else if ( t == "{" )
 		{
-- 
2.43.0


From 61fa298c73ddfddafe4c065c2487dc0c7f5dfcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:00 +0000
Subject: [PATCH 47/73] fix: prop nodes with both a value and children can be
 read back

---
 flut/prop_node_tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index b43c4f5..3b7477a 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -137,8 +137,11 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str, true ) );
+			if ( str.good() && str.peekc() == '{' )
+				t = get_prop_token( str ); // a node can have both a value and children
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From 487f18820b4db44f540c9767bc5e600648ca69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 48/73] fix: compact prop files separate their nodes by a
 delimiter

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 3b7477a..45890e7 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -241,7 +241,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
 		str << indent << try_quoted( label );
-- 
2.43.0


From 0a7b113762adc0487ba0c3c3b5617cc7c35e2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 49/73] fix: an ini comment does not swallow the next line

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 45890e7..f753fe3 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -203,10 +203,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From ee0d181ce21be8a878fe0d099b73e3dcfd7e1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 50/73] fix: ini items after a group are not saved as part of
 that group

---
 flut/prop_node_tools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index f753fe3..94073dd 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -222,6 +222,14 @@ namespace flut
 	FLUT_API void save_ini( const prop_node& pn, const path& filename )
 	{
 		std::ofstream str( filename.str() );
+
+		// main items come first, otherwise they would become part of a group
+		for ( auto& e : pn )
+		{
+			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+				str << e.first << "=" << e.second.get_value() << std::endl;
+		}
+
 		for ( auto& e : pn )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -230,8 +238,6 @@ namespace flut
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_value() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_value() << std::endl;
 		}
 	}
 
-- 
2.43.0


From 6aa226bf0299f0ef5f6b1615fe61849add42a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:09 +0000
Subject: [PATCH 51/73] fix: the profiler is usable from the thread that loads
 the library

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 503e0da..2d9626d 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -4,8 +4,8 @@
 
 namespace flut
 {
-	profiler profiler::instance_;
 	std::thread::id instance_thread_;
+	profiler profiler::instance_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From f817206018a646e19b48423090716e0234ac0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:21 +0000
Subject: [PATCH 52/73] fix: file_exists does not take a folder for a file

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 791a477..081da02 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -94,7 +94,7 @@ namespace flut
 	FLUT_API bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !folder_exists( file ); // a folder can be opened, but is not a file
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
-- 
2.43.0


From 8a0ef02c7d1b920877bed4d4134fbe096bfe164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:53 +0000
Subject: [PATCH 53/73] fix: get_date_time_str does not share the time buffer
 with other threads

---
 flut/system_tools.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flut/system_tools.cpp b/flut/system_tools.cpp
index f1a193d..8153f7c 100644
--- a/flut/system_tools.cpp
+++ b/flut/system_tools.cpp
@@ -12,6 +12,7 @@
 #include <fstream>
 #include "system/log.hpp"
 #include <chrono>
+#include <ctime>
 #include <thread>
 #include <cstdio>
 #include <sys/types.h>
@@ -36,8 +37,14 @@ namespace flut
 	FLUT_API string get_date_time_str( const char* format )
 	{
 		auto in_time_t = std::chrono::system_clock::to_time_t( std::chrono::system_clock::now() );
+		std::tm local_time;
+#ifdef FLUT_COMP_MSVC
+		localtime_s( &local_time, &in_time_t );
+#else
+		localtime_r( &in_time_t, &local_time );
+#endif
 		std::stringstream ss;
-		ss << std::put_time( std::localtime( &in_time_t ), format );
+		ss << std::put_time( &local_time, format );
 		return ss.str();
 	}
 
-- 
2.43.0


From ce23017aa994e0bce07438be7ddae58a7877fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:19 +0000
Subject: [PATCH 54/73] fix: reading a value from text that does not contain
 one is an error for every type

---
 flut/system/string_cast.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/system/string_cast.hpp b/flut/system/string_cast.hpp
index bb28141..9327d73 100644
--- a/flut/system/string_cast.hpp
+++ b/flut/system/string_cast.hpp
@@ -2,12 +2,17 @@
 
 #include "types.hpp"
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 namespace flut
 {
 	template< typename T, typename E = void > struct string_cast {
-		static T from( const string& s ) { T value = T(); std::stringstream str( s ); str >> value; return value; }
+		static T from( const string& s ) {
+			T value = T(); std::stringstream str( s ); str >> value;
+			if ( str.fail() ) throw std::invalid_argument( "Cannot convert from string: " + s );
+			return value;
+		}
 		static string to( const T& value ) { std::ostringstream str; str << value; return str.str(); }
 	};
 
-- 
2.43.0


From 4cd69eee83f18746982f03a349fc0d7bd42eaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 55/73] fix: a prop_node can be assigned from one of its own
 children

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 56308d7..b687353 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { return *this = prop_node( other ); } // other may be part of this node
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From 25a8b4d0b629a51de9e72a94d0103d2c98dd470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 56/73] fix: a table cell can be the default value of new cells

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 8293fac..70af0b1 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -36,7 +36,7 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols, const T& value = T() ) {
+		void resize( size_t rows, size_t cols, T value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-- 
2.43.0


From 25efdb8a6bfadc4e89a4f11b566d418b72e1f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 57/73] fix: adding a column or channel with a label in use
 leaves the data alone

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 flut/storage.hpp                      | 3 ++-
 flut/table.hpp                        | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 620d096..b93d9a5 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { flut_assert( find_channel( label ) == no_index ); resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
diff --git a/flut/storage.hpp b/flut/storage.hpp
index 1b6cbef..507f833 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -19,10 +19,11 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) { flut_assert( find_channel( label ) == no_index ); resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
+			flut_assert( find_channel( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
diff --git a/flut/table.hpp b/flut/table.hpp
index 70af0b1..ed49a07 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,6 +22,7 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
+			flut_assert( col_labels_.find( label ) == no_index );
 			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
-- 
2.43.0


From 2db7397fdddde612a2b515ceff13a111ad98ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 58/73] fix: an unknown label of a constant storage is an error

---
 flut/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 507f833..c32614e 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -87,7 +87,7 @@ namespace flut
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return (*this)[ find_channel( label ) ]; }
+		const T& operator()( const L& label ) const { auto idx = find_channel( label ); flut_assert( idx != no_index ); return (*this)[ idx ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
-- 
2.43.0


From 508358f40b3fedf68ad0dc814979888411e8ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 59/73] fix: copying a file onto itself does not truncate it

---
 flut/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 081da02..76018f7 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -65,6 +65,10 @@ namespace flut
 #ifdef FLUT_COMP_MSVC
 		return CopyFile( from.c_str(), to.c_str(), !overwrite ) == TRUE;
 #else
+		struct stat from_info, to_info;
+		if ( stat( from.c_str(), &from_info ) == 0 && stat( to.c_str(), &to_info ) == 0 && from_info.st_dev == to_info.st_dev && from_info.st_ino == to_info.st_ino )
+			return false; // writing the destination would destroy the source
+
 		if ( overwrite || !file_exists( to ) )
 		{
 			std::ifstream src( from.str(), std::ios::binary );
-- 
2.43.0


From 6265b8fde9543ba9067bb0ca9c68455dad559f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 60/73] fix: create_directories reports success for a folder
 with a separator at the end

---
 flut/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 76018f7..fe8cfa8 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -119,6 +119,10 @@ namespace flut
 
 	FLUT_API bool create_directories( const path& folder )
 	{
+		// a separator at the end does not name another folder
+		if ( !folder.has_filename() && folder.has_parent_path() )
+			return create_directories( folder.parent_path() );
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !folder_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From 51e4b7e4b61555eaefb309e3a37d8e2d8a1a54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 61/73] fix: the average of the smallest values does not add
 zeros when there are too few

---
 flut/container_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index b998a0e..7368427 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -57,7 +57,7 @@ namespace flut
 	}
 
 	template< typename T > T top_average( const vector< T >& vec, size_t count ) {
-		vector< T > result( count );
+		vector< T > result( std::min( count, vec.size() ) );
 		std::partial_sort_copy( vec.begin(), vec.end(), result.begin(), result.end() );
 		return average( result );
 	}
-- 
2.43.0


From 95fa30a3ac707e394d4b9f333b940741d9acd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 62/73] fix: the hash of a string covers what follows a null
 character

---
 flut/hash.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/hash.hpp b/flut/hash.hpp
index e52e0ef..35eca1f 100644
--- a/flut/hash.hpp
+++ b/flut/hash.hpp
@@ -27,7 +27,12 @@ namespace flut
 		return ret;
 	}
 
-	inline hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
+	inline hash_t hash( const std::string& str )
+	{
+		hash_t ret = fnv1a_64_basis;
+		for ( char c : str ) { ret ^= c; ret *= fnv1a_64_prime; }
+		return ret;
+	}
 }
 
 constexpr unsigned long long operator""_hash( char const* p, size_t ) { return flut::hash_constexpr( p ); }
-- 
2.43.0


From f6ec8debf7d38b2605c1f20deaff3c5586ebc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 63/73] fix: a version postfix with spaces is read completely

---
 flut/system/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index c53f2d2..05b8253 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -16,7 +16,7 @@ namespace flut
 			char dummy;
 			str >> major >> dummy >> minor >> dummy >> patch;
 			if ( str.good() && str.peek() == '.' ) str >> dummy >> build;
-			if ( str.good() ) str >> postfix;
+			if ( str.good() ) std::getline( str >> std::ws, postfix );
 		}
 
 		string to_str() const {
-- 
2.43.0


From 203b58d7da3e02cae03684c912f629f776203097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 64/73] fix: the interval of flut_do_periodic can be an
 expression

---
 flut/system/log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/log.hpp b/flut/system/log.hpp
index 68b8ed5..9b4523b 100644
--- a/flut/system/log.hpp
+++ b/flut/system/log.hpp
@@ -18,7 +18,7 @@
 #define FLUT_LOG_LEVEL_CRITICAL 6
 #define FLUT_LOG_LEVEL_NONE 7
 
-#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
+#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % ( interval_ ) == 0 ) { statement_; } }
 
 #define flut_logvar( var_ ) flut::log::trace( #var_"=", var_ )
 #define flut_logvar2( var1_, var2_ ) flut::log::trace( #var1_"=", var1_, "\t", #var2_"=", var2_ )
-- 
2.43.0


From e8d3647ec70c4f710fe5eb1dcbab36b3a66b4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 65/73] fix: items without a value are written to ini files

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 94073dd..afe670c 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -226,7 +226,7 @@ namespace flut
 		// main items come first, otherwise they would become part of a group
 		for ( auto& e : pn )
 		{
-			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+			if ( e.second.size() == 0 ) // main item
 				str << e.first << "=" << e.second.get_value() << std::endl;
 		}
 
-- 
2.43.0


From 8c8fe5fd7154a442462eef36ec882b094a634b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:06 +0000
Subject: [PATCH 66/73] fix: a range with a step that does not divide it ends

---
 flut/math/irange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 6d4ce68..c68cca4 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -51,7 +51,7 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		iterator end() const { return iterator( end_ + ( step_ - ( end_ - begin_ ) % step_ ) % step_, step_ ); } // first step not before end_
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From 7b1ce132589dd97c5acf0d5f9995abb8990e7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:06 +0000
Subject: [PATCH 67/73] fix: wrapping a value a whole number of ranges below
 the range gives its lower end

---
 flut/math/math.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 4d6fab6..7edadd5 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -96,9 +96,8 @@ namespace flut
 		/// wrap a value to a range
 		template< typename T > T& wrap( T& v, const T& lower, const T& upper )
 		{
-			if ( ( v - lower ) >= 0 )
-				return v = fmod( v - lower, upper - lower ) + lower;
-			else return v = fmod( v - lower, upper - lower ) + upper;
+			auto w = fmod( v - lower, upper - lower );
+			return v = w >= 0 ? w + lower : w + upper;
 		}
 
 		/// wrap a value to a range
-- 
2.43.0


From 6c183f4548fb7ab3098272b594de7f2f5d7f55ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:06 +0000
Subject: [PATCH 68/73] fix: profiler sections with the same name are one
 section wherever the name is stored

---
 flut/system/profiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 2d9626d..ea00b48 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -1,5 +1,6 @@
 ﻿#include "profiler.hpp"
 #include <algorithm>
+#include <cstring>
 #include <thread>
 
 namespace flut
@@ -51,7 +52,7 @@ namespace flut
 
 	flut::profiler::section* profiler::find_section( const char* name, size_t parent_id )
 	{
-		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.name == name && s.parent_id == parent_id; } );
+		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return strcmp( s.name, name ) == 0 && s.parent_id == parent_id; } );
 		return it != sections_.end() ? &( *it ) : nullptr;
 	}
 
-- 
2.43.0


From 685d992ea4abdc8e937b7ea8c9bd7ba36ca30c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:06 +0000
Subject: [PATCH 69/73] fix: a polynomial that is not constant can be copied

---
 flut/math/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/polynomial.hpp b/flut/math/polynomial.hpp
index 73888ff..c7bf90a 100644
--- a/flut/math/polynomial.hpp
+++ b/flut/math/polynomial.hpp
@@ -12,7 +12,7 @@ namespace flut
 	struct polynomial
 	{
 		polynomial() : coeff() { static_assert( D > 0, "polynomial degree must be > 0" ); }
-		template<typename ...E> polynomial( E&&...e ) : coeff{ { std::forward<E>( e )... } } { static_assert( D > 0, "polynomial degree must be > 0" ); }
+		template<typename ...E> polynomial( const T& c0, E&&...e ) : coeff{ { c0, std::forward<E>( e )... } } { static_assert( D > 0, "polynomial degree must be > 0" ); }
 
 		T operator()( const T& v ) const {
 			T result = coeff[ 0 ];
-- 
2.43.0


From 9c4302f5af3952c244596e41955d0a95934dce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 70/73] fix: a socket or block device is not a folder

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index fe8cfa8..970647a 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -110,7 +110,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From c64d24e69b62367ec5f97a52910068e9049a0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 71/73] fix: a part of a tree can be merged into the tree
 itself

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index afe670c..9a648f2 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -275,7 +275,8 @@ namespace flut
 
 	void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite )
 	{
-		for ( auto& o : other )
+		const prop_node::container_t nodes( other.begin(), other.end() ); // other may be part of pn
+		for ( auto& o : nodes )
 		{
 			auto it = pn.find( o.first );
 			if ( it == pn.end() )
-- 
2.43.0


From ff159e8c937597b21332e6eaa6e02bbec203b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 72/73] fix: a function can be tabulated with a single sample

---
 flut/debug_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/debug_tools.hpp b/flut/debug_tools.hpp
index d9e9a38..396211d 100644
--- a/flut/debug_tools.hpp
+++ b/flut/debug_tools.hpp
@@ -14,7 +14,7 @@ namespace flut
 		of << std::setprecision( 6 );
 		for ( int i = 0; i < samples; ++i )
 		{
-			T x = min + i * ( max - min ) / ( samples - 1 );
+			T x = samples > 1 ? min + i * ( max - min ) / ( samples - 1 ) : min;
 			T y = func( x );
 			of << x << '\t' << y << std::endl;
 		}
-- 
2.43.0


From 9fca8454f7b717cc4bc23edbfb38f0e758b98bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:35 +0000
Subject: [PATCH 73/73] fix: remember the values of reference arguments, not
 references to a local copy that is gone

---
 flut/memoize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index 9cd8f6f..7950dec 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -3,6 +3,7 @@
 #include <functional>
 #include <map>
 #include <tuple>
+#include <type_traits>
 
 namespace flut
 {
@@ -27,7 +28,7 @@ namespace flut
 		}
 		
 	private:
-		std::map< std::tuple< Args... >, R > mem_;
+		std::map< std::tuple< typename std::decay< Args >::type... >, R > mem_; // keep values, also of references
 		std::function< R( Args... ) > func_;
 	};
 }
-- 
2.43.0

