/* Reference transcription of the RFC 6386 bitstream syntax (sections 9, 19.2), written
   as a producer of symbols. Analysed, never run. */
#ifndef SPEC_SYNTAX_HH
#define SPEC_SYNTAX_HH

#include "bool_encoder.hh"
#include "frame_header.hh"

namespace spec {

inline void flag( BoolEncoder & e, const bool b ) { e.put( b, 128 ); }

/* L(n): n-bit unsigned literal, most significant bit first */
inline void literal( BoolEncoder & e, const unsigned int value, const int bits )
{
  for ( int i = bits - 1; i >= 0; i-- ) {
    e.put( ( value >> i ) & 1, 128 );
  }
}

/* L(n) magnitude followed by L(1) sign */
inline void signed_literal( BoolEncoder & e, const int value, const int bits )
{
  literal( e, value < 0 ? -value : value, bits );
  e.put( value < 0, 128 );
}

template <class T>
void flagged_signed( BoolEncoder & e, const T & x, const int bits )
{
  flag( e, x.initialized() );
  if ( x.initialized() ) {
    signed_literal( e, x.get(), bits );
  }
}

template <class H>
void segmentation( BoolEncoder & e, const H & h )
{
  flag( e, h.update_segmentation.initialized() );
  if ( not h.update_segmentation.initialized() ) { return; }
  const UpdateSegmentation & s = h.update_segmentation.get();

  flag( e, s.update_mb_segmentation_map );
  flag( e, s.segment_feature_data.initialized() );
  if ( s.segment_feature_data.initialized() ) {
    flag( e, s.segment_feature_data.get().segment_feature_mode );
    for ( int i = 0; i < 4; i++ ) { flagged_signed( e, s.segment_feature_data.get().quantizer_update.at( i ), 7 ); }
    for ( int i = 0; i < 4; i++ ) { flagged_signed( e, s.segment_feature_data.get().loop_filter_update.at( i ), 6 ); }
  }
  if ( s.update_mb_segmentation_map ) {
    for ( int i = 0; i < 3; i++ ) {
      flag( e, s.mb_segmentation_map.get().at( i ).initialized() );
      if ( s.mb_segmentation_map.get().at( i ).initialized() ) {
        literal( e, s.mb_segmentation_map.get().at( i ).get(), 8 );
      }
    }
  }
}

template <class H>
void filter_and_quant( BoolEncoder & e, const H & h )
{
  flag( e, h.filter_type );
  literal( e, h.loop_filter_level, 6 );
  literal( e, h.sharpness_level, 3 );

  flag( e, h.mode_lf_adjustments.initialized() );
  if ( h.mode_lf_adjustments.initialized() ) {
    flag( e, h.mode_lf_adjustments.get().initialized() );
    if ( h.mode_lf_adjustments.get().initialized() ) {
      for ( int i = 0; i < 4; i++ ) { flagged_signed( e, h.mode_lf_adjustments.get().get().ref_update.at( i ), 6 ); }
      for ( int i = 0; i < 4; i++ ) { flagged_signed( e, h.mode_lf_adjustments.get().get().mode_update.at( i ), 6 ); }
    }
  }

  literal( e, h.log2_number_of_dct_partitions, 2 );

  literal( e, h.quant_indices.y_ac_qi, 7 );
  flagged_signed( e, h.quant_indices.y_dc, 4 );
  flagged_signed( e, h.quant_indices.y2_dc, 4 );
  flagged_signed( e, h.quant_indices.y2_ac, 4 );
  flagged_signed( e, h.quant_indices.uv_dc, 4 );
  flagged_signed( e, h.quant_indices.uv_ac, 4 );
}

template <class H>
void token_probs_and_skip( BoolEncoder & e, const H & h )
{
  for ( int i = 0; i < 4; i++ ) {
    for ( int j = 0; j < 8; j++ ) {
      for ( int k = 0; k < 3; k++ ) {
        for ( int l = 0; l < 11; l++ ) {
          const auto & u = h.token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob;
          e.put( u.initialized(), k_coeff_entropy_update_probs.at( i ).at( j ).at( k ).at( l ) );
          if ( u.initialized() ) { literal( e, u.get(), 8 ); }
        }
      }
    }
  }
  flag( e, h.prob_skip_false.initialized() );
  if ( h.prob_skip_false.initialized() ) { literal( e, h.prob_skip_false.get(), 8 ); }
}

}

#endif
