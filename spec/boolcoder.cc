/* Reference transcription of RFC 6386 section 7.3. Analysed, never run. */
#include "bool_decoder.hh"
#include "bool_encoder.hh"

namespace spec {

static void next_octet( BoolDecoder & d )
{
  if ( d.chunk_.size_ > 0 ) {
    d.value_ |= d.chunk_.buffer_[ 0 ];
    d.chunk_.buffer_ = d.chunk_.buffer_ + 1;
    d.chunk_.size_ = d.chunk_.size_ - 1;
  } else if ( !d.complete_chunk_ ) {
    d.valid_ = false;
  }
}

/* the encoder represents its message as the integer `message` (all octets written so far followed by the
   bits not written yet) and a range; one step, RFC 6386 section 7.3 write_bool before its
   division into octets */
void enc_step( const uint64_t message, const uint32_t range, const bool value, const uint8_t prob,
               uint64_t & message_out, uint32_t & range_out )
{
  const uint32_t split = 1 + ( ( ( range - 1 ) * prob ) >> 8 );
  uint64_t m = message;
  uint32_t r = split;
  if ( value ) { m = m + split; r = range - split; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  if ( r < 128 ) { m = m * 2; r = r * 2; }
  message_out = m;
  range_out = r;
}

bool dec_step( BoolDecoder & d, const uint8_t prob )
{
  const uint32_t split = 1 + ( ( ( d.range_ - 1 ) * prob ) >> 8 );
  const uint32_t big = split * 256;
  const bool bit = d.value_ >= big;
  if ( bit ) {
    d.value_ = d.value_ - big;
    d.range_ = d.range_ - split;
  } else {
    d.range_ = split;
  }
  for ( int i = 0; i < 7; i++ ) {
    if ( d.range_ < 128 ) {
      d.range_ = d.range_ * 2;
      d.value_ = d.value_ * 2;
      d.bit_count_ = d.bit_count_ + 1;
      if ( d.bit_count_ == 8 ) {
        d.bit_count_ = 0;
        next_octet( d );
      }
    }
  }
  return bit;
}

void dec_start( BoolDecoder & d, const Chunk & c, const bool complete )
{
  d.chunk_ = c;
  d.complete_chunk_ = complete;
  d.valid_ = true;
  d.range_ = 255;
  d.bit_count_ = 0;
  d.value_ = 0;
  next_octet( d );
  d.value_ = d.value_ * 256;
  next_octet( d );
}

}
