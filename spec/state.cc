/* persistent decoder state: what a frame header does to it (RFC 6386 sections 9.3, 9.6, 9.7, 9.9-9.11, 13.4, 16.2, 17.2) */
#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"

namespace spec {

template <class H> static void coefficients( ProbabilityTables & p, const H & h )
{
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) for ( int l = 0; l < 11; l++ ) {
    const auto & u = h.token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob;
    if ( u.initialized() ) { p.coeff_probs.at( i ).at( j ).at( k ).at( l ) = u.get(); }
  }
}

void key_probabilities( const ProbabilityTables & defaults, const KeyFrameHeader & h, ProbabilityTables & frame, ProbabilityTables & kept )
{
  frame = defaults;
  coefficients( frame, h );
  kept = defaults;
  if ( h.refresh_entropy_probs ) { kept = frame; }
}

void inter_probabilities( const ProbabilityTables & old, const InterFrameHeader & h, ProbabilityTables & frame, ProbabilityTables & kept )
{
  frame = old;
  coefficients( frame, h );
  if ( h.intra_16x16_prob.initialized() ) { for ( int i = 0; i < 4; i++ ) { frame.y_mode_probs.at( i ) = h.intra_16x16_prob.get().at( i ); } }
  if ( h.intra_chroma_prob.initialized() ) { for ( int i = 0; i < 3; i++ ) { frame.uv_mode_probs.at( i ) = h.intra_chroma_prob.get().at( i ); } }
  for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) {
    const auto & u = h.mv_prob_update.at( i ).at( j );
    if ( u.initialized() ) { frame.motion_vector_probs.at( i ).at( j ) = u.get(); }
  }
  kept = old;
  if ( h.refresh_entropy_probs ) { kept = frame; }
}

/* with: the state before the frame has the feature enabled; key frames start from nothing */
template <class H> static void filter( bool with, const int8_t * ref, const int8_t * mode, const H & h, bool & enabled, int8_t * nref, int8_t * nmode )
{
  enabled = h.mode_lf_adjustments.initialized();
  for ( int i = 0; i < 4; i++ ) {
    nref[ i ] = with ? ref[ i ] : 0;
    nmode[ i ] = with ? mode[ i ] : 0;
  }
  if ( enabled and h.mode_lf_adjustments.get().initialized() ) {
    for ( int i = 0; i < 4; i++ ) {
      const auto & r = h.mode_lf_adjustments.get().get().ref_update.at( i );
      const auto & m = h.mode_lf_adjustments.get().get().mode_update.at( i );
      if ( r.initialized() ) { nref[ i ] = r.get(); } else { nref[ i ] = 0; }
      if ( m.initialized() ) { nmode[ i ] = m.get(); } else { nmode[ i ] = 0; }
    }
  }
}

template <class H> static void segments( bool with, bool absolute, const int8_t * q, const int8_t * f, const H & h, bool & enabled, bool & nabs, int8_t * nq, int8_t * nf )
{
  enabled = h.update_segmentation.initialized();
  nabs = with ? absolute : false;
  for ( int i = 0; i < 4; i++ ) {
    nq[ i ] = with ? q[ i ] : 0;
    nf[ i ] = with ? f[ i ] : 0;
  }
  if ( enabled and h.update_segmentation.get().segment_feature_data.initialized() ) {
    const auto & d = h.update_segmentation.get().segment_feature_data.get();
    nabs = d.segment_feature_mode;
    for ( int i = 0; i < 4; i++ ) {
      const auto & a = d.quantizer_update.at( i );
      const auto & b = d.loop_filter_update.at( i );
      if ( a.initialized() ) { nq[ i ] = a.get(); } else { nq[ i ] = 0; }
      if ( b.initialized() ) { nf[ i ] = b.get(); } else { nf[ i ] = 0; }
    }
  }
}

void key_filter( bool w, const int8_t * r, const int8_t * m, const KeyFrameHeader & h, bool & e, int8_t * a, int8_t * b ) { filter( w, r, m, h, e, a, b ); }
void inter_filter( bool w, const int8_t * r, const int8_t * m, const InterFrameHeader & h, bool & e, int8_t * a, int8_t * b ) { filter( w, r, m, h, e, a, b ); }
void key_segments( bool w, bool x, const int8_t * q, const int8_t * f, const KeyFrameHeader & h, bool & e, bool & y, int8_t * a, int8_t * b ) { segments( w, x, q, f, h, e, y, a, b ); }
void inter_segments( bool w, bool x, const int8_t * q, const int8_t * f, const InterFrameHeader & h, bool & e, bool & y, int8_t * a, int8_t * b ) { segments( w, x, q, f, h, e, y, a, b ); }

/* which frame (0 last, 1 golden, 2 altref, 3 the new frame) each reference buffer holds afterwards */
void references( const InterFrameHeader & h, int & last, int & golden, int & alternative )
{
  last = 0; golden = 1; alternative = 2;
  if ( not h.refresh_alternate_frame ) {
    int c = h.copy_buffer_to_alternate.get();
    if ( c == 1 ) { alternative = last; }
    if ( c == 2 ) { alternative = golden; }
  }
  if ( not h.refresh_golden_frame ) {
    int c = h.copy_buffer_to_golden.get();
    if ( c == 1 ) { golden = last; }
    if ( c == 2 ) { golden = alternative; }
  }
  if ( h.refresh_golden_frame ) { golden = 3; }
  if ( h.refresh_alternate_frame ) { alternative = 3; }
  if ( h.refresh_last ) { last = 3; }
}
}
