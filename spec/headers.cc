#include "syntax.hh"

namespace spec {

void key_header( BoolEncoder & e, const KeyFrameHeader & h )
{
  flag( e, h.color_space );
  flag( e, h.clamping_type );
  segmentation( e, h );
  filter_and_quant( e, h );
  flag( e, h.refresh_entropy_probs );
  token_probs_and_skip( e, h );
}

void inter_header( BoolEncoder & e, const InterFrameHeader & h )
{
  segmentation( e, h );
  filter_and_quant( e, h );
  flag( e, h.refresh_golden_frame );
  flag( e, h.refresh_alternate_frame );
  if ( not h.refresh_golden_frame ) { literal( e, h.copy_buffer_to_golden.get(), 2 ); }
  if ( not h.refresh_alternate_frame ) { literal( e, h.copy_buffer_to_alternate.get(), 2 ); }
  flag( e, h.sign_bias_golden );
  flag( e, h.sign_bias_alternate );
  flag( e, h.refresh_entropy_probs );
  flag( e, h.refresh_last );
  token_probs_and_skip( e, h );
  literal( e, h.prob_inter, 8 );
  literal( e, h.prob_references_last, 8 );
  literal( e, h.prob_references_golden, 8 );
  flag( e, h.intra_16x16_prob.initialized() );
  if ( h.intra_16x16_prob.initialized() ) {
    for ( int i = 0; i < 4; i++ ) { literal( e, h.intra_16x16_prob.get().at( i ), 8 ); }
  }
  flag( e, h.intra_chroma_prob.initialized() );
  if ( h.intra_chroma_prob.initialized() ) {
    for ( int i = 0; i < 3; i++ ) { literal( e, h.intra_chroma_prob.get().at( i ), 8 ); }
  }
  for ( int i = 0; i < 2; i++ ) {
    for ( int j = 0; j < 19; j++ ) {
      const auto & u = h.mv_prob_update.at( i ).at( j ).mv_prob;
      e.put( u.initialized(), k_mv_entropy_update_probs.at( i ).at( j ) );
      if ( u.initialized() ) { literal( e, u.get(), 7 ); }
    }
  }
}

}
