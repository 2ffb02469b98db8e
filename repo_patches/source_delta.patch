From 2f15dc487a579b11999a21aed086227455b21e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 01/16] fix: keep segment quantizer indices within the
 dequantization tables

---
 src/decoder/frame.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..822283c 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -26,6 +26,8 @@
    (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
    OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE. */
 
+#include <algorithm>
+
 #include "frame.hh"
 
 using namespace std;
@@ -193,11 +195,14 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
             ? static_cast<Unsigned<7>>( 0 )
             : segment_indices.y_ac_qi );
 
+      /* the adjusted index stays within the dequantization tables */
+      segment_indices.y_ac_qi = static_cast<uint8_t>( max( 0, min( 127, segment_qi ) ) );
+
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
   }
-- 
2.43.0


From d8704ca70fbf8c95c49d2c00ef5bf34a8dcf315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:47 +0000
Subject: [PATCH 02/16] fix: limit a segment's loop filter level before adding
 the deltas

---
 src/decoder/frame.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 822283c..44fdf3c 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -163,6 +163,10 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
               ? 0
               : segment_filter.filter_level );
 
+        /* the segment's level is limited before the mode- and reference-based
+           adjustments are added to it */
+        segment_filter.filter_level = max( 0, min( 63, segment_filter.filter_level ) );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From 4607d18e429ce900526bbf4db21d27f0fac017d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:54 +0000
Subject: [PATCH 03/16] fix: compare refresh_entropy_probs in KeyFrameHeader
 equality

---
 src/decoder/frame_header.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoder/frame_header.hh b/src/decoder/frame_header.hh
index 524dcb0..e7ff2ea 100644
--- a/src/decoder/frame_header.hh
+++ b/src/decoder/frame_header.hh
@@ -240,6 +240,7 @@ struct KeyFrameHeader
            mode_lf_adjustments == other.mode_lf_adjustments and
            log2_number_of_dct_partitions == other.log2_number_of_dct_partitions and
            quant_indices == other.quant_indices and
+           refresh_entropy_probs == other.refresh_entropy_probs and
            token_prob_update == other.token_prob_update and
            prob_skip_false == other.prob_skip_false;
   }
-- 
2.43.0


From 8d4a4c8bc94d67e3c3fe9b3d18dff44623d36346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:54 +0000
Subject: [PATCH 04/16] fix: hash the loop filter mode adjustments

---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 917525279422b490a203c9791568d95129e7fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 05/16] fix: write all eight bytes of a 64-bit packet header
 field

---
 src/net/packet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..e63af99 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
-- 
2.43.0


From fa6675962deedbe2c66851979d97f802bf465cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 06/16] fix: reject a chunk length that wraps around when added
 to the offset

---
 src/util/chunk.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..6a98d53 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) {
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
-- 
2.43.0


From 600e79217c3be0e2b026b7bc86d04c6d2e9f7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 07/16] fix: extract bit fields beyond bit 30 of a chunk

---
 src/util/chunk.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index 6a98d53..9a8e211 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( static_cast<uint64_t>( 1 ) << n ) - 1;
   }
 
 public:
@@ -135,7 +135,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= static_cast<uint64_t>( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From ffbb42ffe4f76e314d6272e5c2a1fd845fcad181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 08/16] fix: encoder keeps a stale segmentation after writing a
 frame without it

A decoder drops segmentation when an inter frame's header does not enable it,
but the encoder kept the one it was constructed with and reconstructed its
references with the stale segment quantizers.
---
 src/encoder/encode_inter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..cff523e 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -167,6 +167,11 @@ void Encoder::update_decoder_state( const InterFrame & frame )
   } else {
     decoder_state_.filter_adjustments.clear();
   }
+
+  /* a frame whose header does not enable segmentation turns it off */
+  if ( not frame.header().update_segmentation.initialized() ) {
+    decoder_state_.segmentation.clear();
+  }
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
-- 
2.43.0


From 92b28230571b48d08ec461fc3a2b6ba1a1bb0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 09/16] fix: padded reference copies are too small when the
 frame is not a multiple of 16

SafeReferences::load sized the copy by the display dimensions, but
SafeRaster::copy_raster copies rows of the macroblock-aligned plane: rows
overlapped and the last one was written past the end of the buffer.
---
 src/encoder/safe_references.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/safe_references.cc b/src/encoder/safe_references.cc
index eea2699..c8e7bac 100644
--- a/src/encoder/safe_references.cc
+++ b/src/encoder/safe_references.cc
@@ -56,7 +56,7 @@ const SafeRaster & SafeReferences::get( reference_frame reference_id ) const
 
 MutableSafeRasterHandle SafeReferences::load( const VP8Raster & source )
 {
-  MutableSafeRasterHandle target( source.display_width(), source.display_height() );
+  MutableSafeRasterHandle target( source.width(), source.height() );
   target.get().copy_raster( source );
   return target;
 }
-- 
2.43.0


From 929fa26d33d0dd490b4c29ef5b565cd7cf955ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 10/16] fix: record an inter frame's segmentation in the
 encoder's decoder state

The encoder decodes the frames it writes with this state, so a frame with
segmentation (a re-encoded one keeps the original's header) was reconstructed
with the wrong quantizers and filter levels.
---
 src/encoder/encode_inter.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index cff523e..f0420bd 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -29,6 +29,7 @@
 #include <limits>
 
 #include "encoder.hh"
+#include "decoder_state.hh"
 #include "scorer.hh"
 
 using namespace std;
@@ -168,8 +169,14 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.filter_adjustments.clear();
   }
 
-  /* a frame whose header does not enable segmentation turns it off */
-  if ( not frame.header().update_segmentation.initialized() ) {
+  if ( frame.header().update_segmentation.initialized() ) {
+    if ( decoder_state_.segmentation.initialized() ) {
+      decoder_state_.segmentation.get().update( frame.header() );
+    } else {
+      decoder_state_.segmentation.initialize( frame.header(), width(), height() );
+    }
+  } else {
+    /* a frame whose header does not enable segmentation turns it off */
     decoder_state_.segmentation.clear();
   }
 }
-- 
2.43.0


From 9050159d9194154ae5c744944b7b796b90c94070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:22 +0000
Subject: [PATCH 11/16] fix: threads share the bool decoder that empty frames
 read from

---
 src/decoder/bool_decoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/bool_decoder.hh b/src/decoder/bool_decoder.hh
index b40d906..14fcba7 100644
--- a/src/decoder/bool_decoder.hh
+++ b/src/decoder/bool_decoder.hh
@@ -110,7 +110,8 @@ public:
 
   static BoolDecoder & zero_decoder()
   {
-    static BoolDecoder zd { { nullptr, 0 } };
+    /* decoding changes it, so threads cannot share one */
+    static thread_local BoolDecoder zd { { nullptr, 0 } };
     return zd;
   }
 
-- 
2.43.0


From 2eebc1fa9f8c4d022f8f20da9ffe9edd96fc694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 12/16] fix: keep the decoder of a state that is still listed
 as complete

A state can be reached twice. Dropping the states older than the one the
sender refers to erased the decoder also when the same state is listed again
later, so the receiver acknowledged states it did not have. A state reached
from a partial frame is not in the list at all; nothing is older than it then.
---
 src/salsify/salsify-receiver.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..3d2dcda 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -29,6 +29,7 @@
 #include <getopt.h>
 
 #include <cstdlib>
+#include <algorithm>
 #include <random>
 #include <unordered_map>
 #include <utility>
@@ -277,19 +278,20 @@ int main( int argc, char *argv[] )
           /* sender won't refer to any decoder older than this, so let's get
              rid of them */
 
-          auto it = complete_states.begin();
+          const auto it = find( complete_states.begin(), complete_states.end(), expected_source_state );
 
-          for ( ; it != complete_states.end(); it++ ) {
-            if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+          /* the current state isn't one of the complete states if it was
+             reached from a partial frame */
+          if ( it != complete_states.end() ) {
+            for ( auto old = complete_states.begin(); old != it; old++ ) {
+              /* the same state may have been reached again since then */
+              if ( find( it, complete_states.end(), *old ) == complete_states.end() ) {
+                decoders.erase( *old );
+              }
             }
-            else {
-              break;
-            }
-          }
 
-          assert( it != complete_states.end() );
-          complete_states.erase( complete_states.begin(), it );
+            complete_states.erase( complete_states.begin(), it );
+          }
         }
 
         // here we apply the frame
-- 
2.43.0


From b5e3e7367e2bd7c5adb643ee94b24278c7a2c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 13/16] fix: salsify-sender: keep the encoder of the receiver's
 last complete state

The conservative mode encodes from receiver_complete_states.back(). The
cleanup could drop that encoder while acknowledgements named a later state
that is not listed as complete, and encoders.at() then threw.
---
 src/salsify/salsify-sender.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..3a5c68a 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -363,7 +363,9 @@ int main( int argc, char *argv[] )
 
         while ( it != encoder_states.end() ) {
           if ( *it != receiver_last_acked_state.get() and
-               *it != receiver_assumed_state.get() ) {
+               *it != receiver_assumed_state.get() and
+               ( receiver_complete_states.empty() or
+                 *it != receiver_complete_states.back() ) ) {
             if ( find( next( it ), encoder_states.end(), *it ) == encoder_states.end() ) {
               encoders.erase( *it );
             }
-- 
2.43.0


From 1725c8a20ffe312c4f298ced6fbc7e04f011c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 14/16] fix: salsify-sender: ignore acknowledgements of frames
 never sent

Their number was used as an index beyond the end of cumulative_fpf.
---
 src/salsify/salsify-sender.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 3a5c68a..4e25e0a 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -669,6 +669,11 @@ int main( int argc, char *argv[] )
         return ResultType::Continue;
       }
 
+      if ( ack.frame_no() >= cumulative_fpf.size() ) {
+        /* we have not sent this frame */
+        return ResultType::Continue;
+      }
+
       uint64_t this_ack_seq = ack_seq_no( ack, cumulative_fpf );
 
       if ( last_acked != numeric_limits<uint64_t>::max() and
-- 
2.43.0


From e77bca0a468ebc1f1454365b908b92b2a28e6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:21 +0000
Subject: [PATCH 15/16] fix: read the chroma planes of odd-sized YUV4MPEG
 pictures in full

4:2:0 chroma of a WxH picture has ceil(W/2) x ceil(H/2) samples, which is
what YUV4MPEGFrameWriter writes and edge_extend() expects; the reader
rounded down, lost its place in the file after the first picture, and
left the last chroma row and column unset.
---
 src/input/yuv4mpeg.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..273c8c1 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From d881920bde69a8ebd7215a2df17ed113ea7c37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 16/16] fix: vp8decode: write the Y4M header when the output is
 a pipe

---
 src/frontend/vp8decode.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frontend/vp8decode.cc b/src/frontend/vp8decode.cc
index 37ee69b..a12e43a 100644
--- a/src/frontend/vp8decode.cc
+++ b/src/frontend/vp8decode.cc
@@ -79,13 +79,16 @@ int main( int argc, char *argv[] )
       ? Player( argv[optind] )
       : EncoderStateDeserializer::build<Player>(decoder_state, argv[optind]);
 
+    bool header_written = false;
+
     while ( not player.eof() ) {
       RasterHandle raster = player.advance();
 
       if (y4m_fd.initialized()) {
-        if (lseek(y4m_fd.get().fd_num(), 0, SEEK_CUR) == 0) {
-          // position 0: we haven't written a header yet
+        if (not header_written) {
+          // a pipe has no position to tell whether the header is there
           y4m_fd.get().write(YUV4MPEGHeader(raster).to_string());
+          header_written = true;
         }
 
         YUV4MPEGFrameWriter::write(raster, y4m_fd.get());
-- 
2.43.0

