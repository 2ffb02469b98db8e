/* Reference transcription of the per-macroblock header syntax and its meaning:
   RFC 6386 sections 8, 10, 11, 16, 17, 19.3. Analysed, never run. */
#include "macroblock.hh"
#include "scorer.hh"
#include "frame_header.hh"
#include "decoder_state.hh"

namespace spec {

template <class MB, class H>
void prologue( MB & mb, BoolDecoder & d, const H & h, const ProbabilityArray< num_segments > & seg )
{
  if ( h.update_segmentation.initialized() and h.update_segmentation.get().update_mb_segmentation_map ) {
    mb.segment_id_update_.initialize( d, seg );
  }
  if ( h.prob_skip_false.initialized() ) {
    mb.mb_skip_coeff_.initialize( d.get( h.prob_skip_false.get() ) );
  }
}

static bmode implied( const mbmode m )
{
  if ( m == DC_PRED ) { return B_DC_PRED; }
  if ( m == V_PRED ) { return B_VE_PRED; }
  if ( m == H_PRED ) { return B_HE_PRED; }
  return B_TM_PRED;
}

void key_mb( KeyFrameMacroblock & mb, BoolDecoder & d, const KeyFrameHeader & h,
             const ProbabilityArray< num_segments > & seg, const ProbabilityTables & )
{
  prologue( mb, d, h, seg );
  const mbmode ymode = Tree< mbmode, num_y_modes, kf_y_mode_tree >( d, kf_y_mode_probs );
  mb.Y2_.prediction_mode_ = ymode;
  if ( ymode == B_PRED ) {
    mb.Y2_.coded_ = false;
    for ( int r = 0; r < 4; r++ ) {
      for ( int c = 0; c < 4; c++ ) {
        YBlock & b = mb.Y_.at( c, r );
        bmode A = B_DC_PRED, L = B_DC_PRED;
        if ( b.context_.above.initialized() ) { A = b.context_.above.get()->prediction_mode_; }
        if ( b.context_.left.initialized() ) { L = b.context_.left.get()->prediction_mode_; }
        b.prediction_mode_ = Tree< bmode, num_intra_b_modes, b_mode_tree >( d, kf_b_mode_probs.at( A ).at( L ) );
        b.type_ = Y_without_Y2;
      }
    }
  } else {
    for ( int r = 0; r < 4; r++ ) {
      for ( int c = 0; c < 4; c++ ) { mb.Y_.at( c, r ).prediction_mode_ = implied( ymode ); }
    }
  }
  mb.U_.at( 0, 0 ).prediction_mode_ = Tree< mbmode, num_uv_modes, uv_mode_tree >( d, kf_uv_mode_probs );
}

static const uint8_t splits[ 4 ][ 16 ] = {
  { 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1 },
  { 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1 },
  { 0, 0, 1, 1, 0, 0, 1, 1, 2, 2, 3, 3, 2, 2, 3, 3 },
  { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }
};
static const uint8_t split_count[ 4 ] = { 2, 2, 4, 16 };

static int16_t chroma_component( const int16_t sum )
{
  return sum < 0 ? -( ( -sum + 4 ) / 8 ) : ( sum + 4 ) / 8;
}

void inter_mb( InterFrameMacroblock & mb, BoolDecoder & d, const InterFrameHeader & h,
               const ProbabilityArray< num_segments > & seg, const ProbabilityTables & pt )
{
  prologue( mb, d, h, seg );

  const bool inter = d.get( h.prob_inter );
  mb.header_.is_inter_mb = inter;
  bool flipped = false;
  if ( inter ) {
    const bool not_last = d.get( h.prob_references_last );
    mb.header_.mb_ref_frame_sel1.initialize( not_last );
    if ( not_last ) {
      const bool alt = d.get( h.prob_references_golden );
      mb.header_.mb_ref_frame_sel2.initialize( alt );
      flipped = alt ? bool( h.sign_bias_alternate ) : bool( h.sign_bias_golden );
    }
  }
  mb.header_.motion_vectors_flipped_ = flipped;

  if ( not inter ) {
    const mbmode ymode = Tree< mbmode, num_y_modes, y_mode_tree >( d, pt.y_mode_probs );
    mb.Y2_.prediction_mode_ = ymode;
    if ( ymode == B_PRED ) { mb.Y2_.coded_ = false; }
    for ( int r = 0; r < 4; r++ ) {
      for ( int c = 0; c < 4; c++ ) {
        YBlock & b = mb.Y_.at( c, r );
        if ( ymode == B_PRED ) {
          b.type_ = Y_without_Y2;
          b.prediction_mode_ = Tree< bmode, num_intra_b_modes, b_mode_tree >( d, invariant_b_mode_probs );
        } else {
          b.prediction_mode_ = implied( ymode );
        }
      }
    }
    mb.U_.at( 0, 0 ).prediction_mode_ = Tree< mbmode, num_uv_modes, uv_mode_tree >( d, pt.uv_mode_probs );
    return;
  }

  Scorer census( flipped );
  census.add( 2, mb.context_.above );
  census.add( 2, mb.context_.left );
  census.add( 1, mb.context_.above_left );
  census.calculate();
  const auto cnt = census.mode_contexts();
  const ProbabilityArray< num_mv_refs > p = {{ mv_counts_to_probs.at( cnt.at( 0 ) ).at( 0 ),
                                               mv_counts_to_probs.at( cnt.at( 1 ) ).at( 1 ),
                                               mv_counts_to_probs.at( cnt.at( 2 ) ).at( 2 ),
                                               mv_counts_to_probs.at( cnt.at( 3 ) ).at( 3 ) }};
  const mbmode mode = Tree< mbmode, num_mv_refs, mv_ref_tree >( d, p );
  mb.Y2_.prediction_mode_ = mode;
  const MotionVector best = Scorer::clamp( census.best(), mb.context_ );

  if ( mode == SPLITMV ) {
    mb.Y2_.coded_ = false;
    mb.header_.partition_id.initialize( d, split_mv_probs );
    const uint8_t which = mb.header_.partition_id.get();
    for ( int k = 0; k < split_count[ which ]; k++ ) {
      bool first = true;
      bmode sub = LEFT4X4;
      int16_t sx = 0, sy = 0;
      for ( int i = 0; i < 16; i++ ) {
        if ( splits[ which ][ i ] != k ) { continue; }
        YBlock & b = mb.Y_.at( i % 4, i / 4 );
        if ( first ) {
          first = false;
          int16_t lx = 0, ly = 0, ax = 0, ay = 0;
          if ( b.context_.left.initialized() ) {
            lx = b.context_.left.get()->motion_vector_.x_;
            ly = b.context_.left.get()->motion_vector_.y_;
          }
          if ( b.context_.above.initialized() ) {
            ax = b.context_.above.get()->motion_vector_.x_;
            ay = b.context_.above.get()->motion_vector_.y_;
          }
          int lez = 0;
          if ( lx == ax and ly == ay ) {
            lez = ( lx == 0 and ly == 0 ) ? 4 : 3;
          } else if ( ax == 0 and ay == 0 ) {
            lez = 2;
          } else if ( lx == 0 and ly == 0 ) {
            lez = 1;
          }
          sub = Tree< bmode, num_inter_b_modes, submv_ref_tree >( d, submv_ref_probs2.at( lez ) );
          if ( sub == LEFT4X4 ) { sx = lx; sy = ly; }
          else if ( sub == ABOVE4X4 ) { sx = ax; sy = ay; }
          else if ( sub == NEW4X4 ) {
            const MotionVector delta( d, pt.motion_vector_probs );
            sx = delta.x_ + best.x_;
            sy = delta.y_ + best.y_;
          }
        }
        b.prediction_mode_ = sub;
        b.motion_vector_.x_ = sx;
        b.motion_vector_.y_ = sy;
        b.type_ = Y_without_Y2;
      }
    }
  } else {
    int16_t x = 0, y = 0;
    if ( mode == NEARESTMV ) {
      const MotionVector m = Scorer::clamp( census.nearest(), mb.context_ );
      x = m.x_; y = m.y_;
    } else if ( mode == NEARMV ) {
      const MotionVector m = Scorer::clamp( census.near(), mb.context_ );
      x = m.x_; y = m.y_;
    } else if ( mode == NEWMV ) {
      const MotionVector delta( d, pt.motion_vector_probs );
      x = delta.x_ + best.x_;
      y = delta.y_ + best.y_;
    }
    for ( int r = 0; r < 4; r++ ) {
      for ( int c = 0; c < 4; c++ ) {
        mb.Y_.at( c, r ).motion_vector_.x_ = x;
        mb.Y_.at( c, r ).motion_vector_.y_ = y;
      }
    }
  }

  for ( int r = 0; r < 2; r++ ) {
    for ( int c = 0; c < 2; c++ ) {
      const MotionVector & a = mb.Y_.at( 2 * c, 2 * r ).motion_vector_;
      const MotionVector & b = mb.Y_.at( 2 * c + 1, 2 * r ).motion_vector_;
      const MotionVector & e = mb.Y_.at( 2 * c, 2 * r + 1 ).motion_vector_;
      const MotionVector & f = mb.Y_.at( 2 * c + 1, 2 * r + 1 ).motion_vector_;
      mb.U_.at( c, r ).motion_vector_.x_ = chroma_component( a.x_ + b.x_ + e.x_ + f.x_ );
      mb.U_.at( c, r ).motion_vector_.y_ = chroma_component( a.y_ + b.y_ + e.y_ + f.y_ );
    }
  }
}

/* section 17: motion vector components (in quarter pixels, coded at half the unit stored) */
static int read_component( BoolDecoder & d, const SafeArray< Probability, MV_PROB_CNT > & p )
{
  int a = 0;
  if ( d.get( p.at( 0 ) ) ) {
    for ( int i = 0; i < 3; i++ ) { a += int( d.get( p.at( 9 + i ) ) ) << i; }
    for ( int i = 9; i > 3; i-- ) { a += int( d.get( p.at( 9 + i ) ) ) << i; }
    if ( a > 15 ) {
      if ( d.get( p.at( 12 ) ) ) { a += 8; }
    } else {
      a += 8;
    }
  } else {
    if ( d.get( p.at( 2 ) ) ) {
      if ( d.get( p.at( 6 ) ) ) { a = d.get( p.at( 8 ) ) ? 7 : 6; }
      else { a = d.get( p.at( 7 ) ) ? 5 : 4; }
    } else {
      if ( d.get( p.at( 3 ) ) ) { a = d.get( p.at( 5 ) ) ? 3 : 2; }
      else { a = d.get( p.at( 4 ) ) ? 1 : 0; }
    }
  }
  if ( a != 0 ) {
    if ( d.get( p.at( 1 ) ) ) { a = -a; }
  }
  return a * 2;
}

void motion_vector( BoolDecoder & d, const SafeArray< SafeArray< Probability, MV_PROB_CNT >, 2 > & p, int & x, int & y )
{
  y = read_component( d, p.at( 0 ) );
  x = read_component( d, p.at( 1 ) );
}

/* section 18.1 / 5: sums in the order above, left, above-left */
}
