/* Reference transcription of RFC 6386 section 9.1 (uncompressed data chunk) and section 9.5
   (token partitions) for complete frames. Analysed, never run. */
#include "uncompressed_chunk.hh"
#include "exception.hh"

namespace spec {

void frame_tag( const Chunk & f, const uint16_t width, const uint16_t height, UncompressedChunk & u )
{
  if ( f.size_ < 3 ) { throw Invalid( "truncated" ); }
  const uint32_t tag = f.buffer_[ 0 ] + 256 * f.buffer_[ 1 ] + 65536 * f.buffer_[ 2 ];
  u.key_frame_ = ( tag % 2 ) == 0;
  const uint32_t version = ( tag / 2 ) % 8;
  u.show_frame_ = ( tag / 16 ) % 2;
  const uint32_t first_size = tag / 32;
  /* profiles 1..3 (other filters) are not supported; 4 and 6 are this project's experimental ones */
  if ( version == 0 ) {
    u.loop_filter_ = LoopFilterType::Normal;
    u.experimental_ = false;
  } else if ( version == 4 ) {
    u.loop_filter_ = LoopFilterType::Normal;
    u.experimental_ = true;
  } else if ( version == 6 ) {
    u.loop_filter_ = LoopFilterType::NoFilter;
    u.experimental_ = true;
  } else {
    throw Unsupported( "version" );
  }
  uint32_t header = 3;
  if ( u.key_frame_ ) { header = 10; }
  if ( f.size_ <= header + first_size ) { throw Invalid( "truncated" ); }
  u.first_partition_.buffer_ = f.buffer_ + header;
  u.first_partition_.size_ = first_size;
  u.rest_.buffer_ = f.buffer_ + header + first_size;
  u.rest_.size_ = f.size_ - header - first_size;
  if ( u.key_frame_ ) {
    if ( f.buffer_[ 3 ] != 0x9d || f.buffer_[ 4 ] != 0x01 || f.buffer_[ 5 ] != 0x2a ) { throw Invalid( "start code" ); }
    const uint32_t w = f.buffer_[ 6 ] + 256 * f.buffer_[ 7 ];
    const uint32_t h = f.buffer_[ 8 ] + 256 * f.buffer_[ 9 ];
    if ( w % 16384 != width || h % 16384 != height || w / 16384 != 0 || h / 16384 != 0 ) { throw Unsupported( "scaling" ); }
  }
}

}
