/* reference transcription of RFC 6386 sections 9.3, 9.6, 14.1, 15.1-15.4: quantizer and loop-filter parameter derivation */
#include <cstdint>

namespace spec {
static const int dc_q[ 128 ] = { 4, 5, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14, 15, 16, 17, 17, 18, 19, 20, 20, 21, 21, 22, 22, 23, 23, 24, 25, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 91, 93, 95, 96, 98, 100, 101, 102, 104, 106, 108, 110, 112, 114, 116, 118, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 143, 145, 148, 151, 154, 157 };
static const int ac_q[ 128 ] = { 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 119, 122, 125, 128, 131, 134, 137, 140, 143, 146, 149, 152, 155, 158, 161, 164, 167, 170, 173, 177, 181, 185, 189, 193, 197, 201, 205, 209, 213, 217, 221, 225, 229, 234, 239, 245, 249, 254, 259, 264, 269, 274, 279, 284 };

static inline int index( int q ) { return q < 0 ? 0 : q > 127 ? 127 : q; }

/* out: y dc, y ac, y2 dc, y2 ac, uv dc, uv ac; q: index of the segment (or frame) */
static inline void factors( int q, int ydc, int y2dc, int y2ac, int uvdc, int uvac, int * out )
{
  out[ 0 ] = dc_q[ index( q + ydc ) ];
  out[ 1 ] = ac_q[ index( q ) ];
  out[ 2 ] = 2 * dc_q[ index( q + y2dc ) ];
  const int a = ac_q[ index( q + y2ac ) ] * 155 / 100;
  out[ 3 ] = a < 8 ? 8 : a;
  const int d = dc_q[ index( q + uvdc ) ];
  out[ 4 ] = d > 132 ? 132 : d;
  out[ 5 ] = ac_q[ index( q + uvac ) ];
}

/* the two published decoders differ in whether the segment index is limited before the
   per-plane deltas are added: the factor is fixed only where they agree (agree[i]) */
void quantizer( int base, bool seg, bool absolute, int adj, int ydc, int y2dc, int y2ac, int uvdc, int uvac, int * out, int * agree )
{
  const int q = seg ? ( absolute ? adj : base + adj ) : base;
  int other[ 6 ];
  factors( index( q ), ydc, y2dc, y2ac, uvdc, uvac, out );
  factors( q, ydc, y2dc, y2ac, uvdc, uvac, other );
  for ( int i = 0; i < 6; i++ ) agree[ i ] = out[ i ] == other[ i ];
}

static inline int level63( int v ) { return v < 0 ? 0 : v > 63 ? 63 : v; }

/* section 9.6 / 15.1: filter level of a macroblock; mode: 0 other intra, 1 B_PRED, 2 ZEROMV, 3 SPLITMV, 4 other inter */
int filter_level( int base, bool seg, bool absolute, int adj, bool deltas, const int8_t * ref_delta, const int8_t * mode_delta, int ref, int mode )
{
  int l = base;
  if ( seg ) l = level63( absolute ? adj : base + adj );
  if ( deltas ) {
    l += ref_delta[ ref ];
    if ( mode == 1 ) l += mode_delta[ 0 ];
    else if ( mode == 2 ) l += mode_delta[ 1 ];
    else if ( mode == 3 ) l += mode_delta[ 3 ];
    else if ( mode == 4 ) l += mode_delta[ 2 ];
    l = level63( l );
  }
  return l;
}

int interior_limit( int level, int sharpness )
{
  int i = level;
  if ( sharpness ) {
    i >>= sharpness > 4 ? 2 : 1;
    if ( i > 9 - sharpness ) i = 9 - sharpness;
  }
  return i ? i : 1;
}

int hev_threshold( int level, bool key )
{
  if ( key ) return level >= 40 ? 2 : level >= 15 ? 1 : 0;
  return level >= 40 ? 3 : level >= 20 ? 2 : level >= 15 ? 1 : 0;
}
}
