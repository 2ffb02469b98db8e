/* Reference transcription of RFC 6386 section 13 (DCT coefficient decoding) and of the
   block order of section 19.3. Analysed, never run. */
#include "macroblock.hh"
#include "frame.hh"
#include "tokens.hh"
#include "decoder_state.hh"

namespace spec {

static int extra( BoolDecoder & d, const int base, const int n, const int p0, const int p1, const int p2, const int p3,
                  const int p4, const int p5, const int p6, const int p7, const int p8, const int p9, const int p10 )
{
  const int p[ 11 ] = { p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10 };
  int v = 0;
  for ( int i = 0; i < n; i++ ) { v = 2 * v + int( d.get( p[ i ] ) ); }
  return base + v;
}

/* the coefficient token tree of section 13.2, without its end-of-block branch; p is the
   probability vector of the current type, band and context */
static int magnitude( BoolDecoder & d, const ProbabilityArray< MAX_ENTROPY_TOKENS > & p )
{
  if ( d.get( p.at( 2 ) ) == false ) { return 1; }
  if ( d.get( p.at( 3 ) ) == false ) {
    if ( d.get( p.at( 4 ) ) == false ) { return 2; }
    return d.get( p.at( 5 ) ) ? 4 : 3;
  }
  if ( d.get( p.at( 6 ) ) == false ) {
    if ( d.get( p.at( 7 ) ) == false ) { return extra( d, 5, 1, 159, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 ); }
    return extra( d, 7, 2, 165, 145, 0, 0, 0, 0, 0, 0, 0, 0, 0 );
  }
  if ( d.get( p.at( 8 ) ) == false ) {
    if ( d.get( p.at( 9 ) ) == false ) { return extra( d, 11, 3, 173, 148, 140, 0, 0, 0, 0, 0, 0, 0, 0 ); }
    return extra( d, 19, 4, 176, 155, 140, 135, 0, 0, 0, 0, 0, 0, 0 );
  }
  if ( d.get( p.at( 10 ) ) == false ) { return extra( d, 35, 5, 180, 157, 141, 134, 130, 0, 0, 0, 0, 0, 0 ); }
  return extra( d, 67, 11, 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 );
}

template <class B>
static void block( B & b, BoolDecoder & d, const ProbabilityTables & t )
{
  const int bands[ 16 ] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 };
  const int zz[ 16 ] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
  int ctx = 0;
  if ( b.context_.above.initialized() and b.context_.above.get()->has_nonzero_ ) { ctx++; }
  if ( b.context_.left.initialized() and b.context_.left.get()->has_nonzero_ ) { ctx++; }
  bool eob_possible = true;
  int i = 0;
  if ( b.type_ == 0 ) { i = 1; }
  while ( i < 16 ) {
    const ProbabilityArray< MAX_ENTROPY_TOKENS > & p = t.coeff_probs.at( b.type_ ).at( bands[ i ] ).at( ctx );
    if ( eob_possible ) {
      if ( d.get( p.at( 0 ) ) == false ) { return; }
    }
    if ( d.get( p.at( 1 ) ) == false ) {
      eob_possible = false;
      ctx = 0;
    } else {
      const int m = magnitude( d, p );
      const bool negative = d.get( 128 );
      b.has_nonzero_ = true;
      b.coefficients_.coefficients_.at( zz[ i ] ) = negative ? -m : m;
      eob_possible = true;
      ctx = m == 1 ? 1 : 2;
    }
    i++;
  }
}

void block_y( YBlock & b, BoolDecoder & d, const ProbabilityTables & t ) { block( b, d, t ); }
void block_y2( Y2Block & b, BoolDecoder & d, const ProbabilityTables & t ) { block( b, d, t ); }
void block_uv( UVBlock & b, BoolDecoder & d, const ProbabilityTables & t ) { block( b, d, t ); }

/* Y2 if present, then Y, U, V in raster order; nothing when the macroblock is skipped */
template <class MB>
static void macroblock( MB & m, BoolDecoder & d, const ProbabilityTables & t )
{
  if ( m.mb_skip_coeff_.initialized() and m.mb_skip_coeff_.get() ) { return; }
  bool any = m.has_nonzero_;
  if ( m.Y2_.coded_ ) {
    m.Y2_.parse_tokens( d, t );
    any = any or m.Y2_.has_nonzero_;
  }
  for ( int r = 0; r < 4; r++ ) {
    for ( int c = 0; c < 4; c++ ) {
      m.Y_.at( c, r ).parse_tokens( d, t );
      any = any or m.Y_.at( c, r ).has_nonzero_;
    }
  }
  for ( int r = 0; r < 2; r++ ) {
    for ( int c = 0; c < 2; c++ ) {
      m.U_.at( c, r ).parse_tokens( d, t );
      any = any or m.U_.at( c, r ).has_nonzero_;
    }
  }
  for ( int r = 0; r < 2; r++ ) {
    for ( int c = 0; c < 2; c++ ) {
      m.V_.at( c, r ).parse_tokens( d, t );
      any = any or m.V_.at( c, r ).has_nonzero_;
    }
  }
  m.has_nonzero_ = any;
}

void key_mb_tokens( KeyFrameMacroblock & m, BoolDecoder & d, const ProbabilityTables & t ) { macroblock( m, d, t ); }
void inter_mb_tokens( InterFrameMacroblock & m, BoolDecoder & d, const ProbabilityTables & t ) { macroblock( m, d, t ); }

}
