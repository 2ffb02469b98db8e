/* reference transcription of RFC 6386 sections 12, 14, 18 (prediction, dequantization, inverse transforms) and
   contracts of the assembly kernels */
#include <cstdint>
#include <cstddef>

/* ------------------------------------------------ kernels (trusted contracts) */
namespace asmref {
static inline int clamp( int v ) { return v < 0 ? 0 : v > 255 ? 255 : v; }

#define KERNELS(N, LG) \
  void vpx_tm_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t * above, const uint8_t * left ) \
  { for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = clamp( left[ r ] + above[ c ] - above[ -1 ] ); } \
  void vpx_h_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t *, const uint8_t * left ) \
  { for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = left[ r ]; } \
  void vpx_v_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t * above, const uint8_t * ) \
  { for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = above[ c ]; } \
  void vpx_dc_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t * above, const uint8_t * left ) \
  { int s = 0; for ( int i = 0; i < N; i++ ) s += above[ i ] + left[ i ]; int v = ( s + N ) >> ( LG + 1 ); \
    for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = v; } \
  void vpx_dc_top_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t * above, const uint8_t * ) \
  { int s = 0; for ( int i = 0; i < N; i++ ) s += above[ i ]; int v = ( s + N / 2 ) >> LG; \
    for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = v; } \
  void vpx_dc_left_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t *, const uint8_t * left ) \
  { int s = 0; for ( int i = 0; i < N; i++ ) s += left[ i ]; int v = ( s + N / 2 ) >> LG; \
    for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = v; } \
  void vpx_dc_128_predictor_##N##x##N##_sse2( uint8_t * dst, ptrdiff_t stride, const uint8_t *, const uint8_t * ) \
  { for ( int r = 0; r < N; r++ ) for ( int c = 0; c < N; c++ ) dst[ r * stride + c ] = 128; }

KERNELS( 4, 2 )
KERNELS( 8, 3 )
KERNELS( 16, 4 )

static inline int a2( int x, int y ) { return ( x + y + 1 ) >> 1; }
static inline int a3( int x, int y, int z ) { return ( x + y + y + z + 2 ) >> 2; }

void vpx_d153_predictor_4x4_ssse3( uint8_t * d, ptrdiff_t s, const uint8_t * A, const uint8_t * L )
{
  d[ 3 * s ] = a2( L[ 3 ], L[ 2 ] );
  d[ 3 * s + 1 ] = a3( L[ 3 ], L[ 2 ], L[ 1 ] );
  d[ 2 * s ] = d[ 3 * s + 2 ] = a2( L[ 2 ], L[ 1 ] );
  d[ 2 * s + 1 ] = d[ 3 * s + 3 ] = a3( L[ 2 ], L[ 1 ], L[ 0 ] );
  d[ 2 * s + 2 ] = d[ s ] = a2( L[ 1 ], L[ 0 ] );
  d[ 2 * s + 3 ] = d[ s + 1 ] = a3( L[ 1 ], L[ 0 ], A[ -1 ] );
  d[ s + 2 ] = d[ 0 ] = a2( L[ 0 ], A[ -1 ] );
  d[ s + 3 ] = d[ 1 ] = a3( L[ 0 ], A[ -1 ], A[ 0 ] );
  d[ 2 ] = a3( A[ -1 ], A[ 0 ], A[ 1 ] );
  d[ 3 ] = a3( A[ 0 ], A[ 1 ], A[ 2 ] );
}

void vpx_d207_predictor_4x4_sse2( uint8_t * d, ptrdiff_t s, const uint8_t *, const uint8_t * L )
{
  d[ 0 ] = a2( L[ 0 ], L[ 1 ] );
  d[ 1 ] = a3( L[ 0 ], L[ 1 ], L[ 2 ] );
  d[ 2 ] = d[ s ] = a2( L[ 1 ], L[ 2 ] );
  d[ 3 ] = d[ s + 1 ] = a3( L[ 1 ], L[ 2 ], L[ 3 ] );
  d[ s + 2 ] = d[ 2 * s ] = a2( L[ 2 ], L[ 3 ] );
  d[ s + 3 ] = d[ 2 * s + 1 ] = a3( L[ 2 ], L[ 3 ], L[ 3 ] );
  d[ 2 * s + 2 ] = d[ 2 * s + 3 ] = d[ 3 * s ] = d[ 3 * s + 1 ] = d[ 3 * s + 2 ] = d[ 3 * s + 3 ] = L[ 3 ];
}

static const int six[ 8 ][ 6 ] = { { 0, 0, 128, 0, 0, 0 }, { 0, -6, 123, 12, -1, 0 }, { 2, -11, 108, 36, -8, 1 }, { 0, -9, 93, 50, -6, 0 },
                                   { 3, -16, 77, 77, -16, 3 }, { 0, -6, 50, 93, -9, 0 }, { 1, -8, 36, 108, -11, 2 }, { 0, -1, 12, 123, -6, 0 } };

#define SIXTAP(N) \
  void vp8_filter_block1d##N##_h6_ssse3( const uint8_t * src, unsigned int pitch, uint8_t * dst, unsigned int dpitch, unsigned int height, unsigned int f ) \
  { for ( unsigned int r = 0; r < height; r++ ) for ( int c = 0; c < N; c++ ) { \
      const uint8_t * p = src + r * pitch + c; \
      dst[ r * dpitch + c ] = clamp( ( p[ -2 ] * six[ f ][ 0 ] + p[ -1 ] * six[ f ][ 1 ] + p[ 0 ] * six[ f ][ 2 ] + p[ 1 ] * six[ f ][ 3 ] + p[ 2 ] * six[ f ][ 4 ] + p[ 3 ] * six[ f ][ 5 ] + 64 ) >> 7 ); } } \
  void vp8_filter_block1d##N##_v6_ssse3( const uint8_t * src, unsigned int pitch, uint8_t * dst, unsigned int dpitch, unsigned int height, unsigned int f ) \
  { for ( unsigned int r = 0; r < height; r++ ) for ( int c = 0; c < N; c++ ) { \
      const uint8_t * p = src + r * pitch + c; \
      dst[ r * dpitch + c ] = clamp( ( p[ 0 ] * six[ f ][ 0 ] + p[ pitch ] * six[ f ][ 1 ] + p[ 2 * pitch ] * six[ f ][ 2 ] + p[ 3 * pitch ] * six[ f ][ 3 ] + p[ 4 * pitch ] * six[ f ][ 4 ] + p[ 5 * pitch ] * six[ f ][ 5 ] + 64 ) >> 7 ); } }

SIXTAP( 4 )
SIXTAP( 8 )
SIXTAP( 16 )
}

/* ------------------------------------------------ RFC 6386 section 12 */
namespace spec {
static inline int clamp255( int v ) { return v < 0 ? 0 : v > 255 ? 255 : v; }

/* A[-1..], L: the row above and the column to the left of the block at pixel (x, y) of a plane w pixels wide */
static inline void edges( const uint8_t * p, int w, int x, int y, int size, int * A, int * L )
{
  for ( int i = 0; i < size; i++ ) {
    A[ 1 + i ] = y > 0 ? p[ ( y - 1 ) * w + x + i ] : 127;
    L[ i ] = x > 0 ? p[ ( y + i ) * w + x - 1 ] : 129;
  }
  A[ 0 ] = y == 0 ? 127 : x == 0 ? 129 : p[ ( y - 1 ) * w + x - 1 ];
}

void whole( const uint8_t * p, int w, int x, int y, int size, int lg, int mode, uint8_t * out )
{
  int A[ 40 ], L[ 16 ];
  edges( p, w, x, y, size, A, L );
  int v = 128;
  if ( x > 0 and y > 0 ) {
    int s = size;
    for ( int i = 0; i < size; i++ ) s += A[ 1 + i ] + L[ i ];
    v = s >> ( lg + 1 );
  } else if ( y > 0 ) {
    int s = size >> 1;
    for ( int i = 0; i < size; i++ ) s += A[ 1 + i ];
    v = s >> lg;
  } else if ( x > 0 ) {
    int s = size >> 1;
    for ( int i = 0; i < size; i++ ) s += L[ i ];
    v = s >> lg;
  }
  for ( int r = 0; r < size; r++ )
    for ( int c = 0; c < size; c++ )
      out[ r * size + c ] = mode == 0 ? v : mode == 1 ? A[ 1 + c ] : mode == 2 ? L[ r ] : clamp255( L[ r ] + A[ 1 + c ] - A[ 0 ] );
}

static inline int avg3( int x, int y, int z ) { return ( x + 2 * y + z + 2 ) >> 2; }
static inline int avg2( int x, int y ) { return ( x + y + 1 ) >> 1; }

/* section 12.3; k, m: column and row of the subblock inside its macroblock, last: macroblock at the right frame edge */
void subblock( const uint8_t * p, int w, int x, int y, int k, int m, bool last, int mode, uint8_t * out )
{
  int a[ 40 ], L[ 16 ];
  edges( p, w, x, y, 4, a, L );
  const int top = y - 4 * m; /* first row of the macroblock */
  for ( int i = 0; i < 4; i++ ) {
    if ( k == 3 ) {
      /* right-hand column: always the row above the macroblock */
      a[ 5 + i ] = top == 0 ? 127 : last ? p[ ( top - 1 ) * w + x + 3 ] : p[ ( top - 1 ) * w + x + 4 + i ];
    } else {
      a[ 5 + i ] = y == 0 ? 127 : p[ ( y - 1 ) * w + x + 4 + i ];
    }
  }
  int E[ 9 ];
  E[ 0 ] = L[ 3 ]; E[ 1 ] = L[ 2 ]; E[ 2 ] = L[ 1 ]; E[ 3 ] = L[ 0 ];
  E[ 4 ] = a[ 0 ]; E[ 5 ] = a[ 1 ]; E[ 6 ] = a[ 2 ]; E[ 7 ] = a[ 3 ]; E[ 8 ] = a[ 4 ];
  int A[ 8 ];
  for ( int i = 0; i < 8; i++ ) A[ i ] = a[ 1 + i ];
  int P = a[ 0 ];
  int B[ 4 ][ 4 ];
  for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = 0;
  if ( mode == 0 ) { /* B_DC_PRED */
    int v = 4;
    for ( int i = 0; i < 4; i++ ) v += A[ i ] + L[ i ];
    v >>= 3;
    for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = v;
  } else if ( mode == 1 ) { /* B_TM_PRED */
    for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = clamp255( L[ r ] + A[ c ] - P );
  } else if ( mode == 2 ) { /* B_VE_PRED */
    for ( int r = 0; r < 4; r++ ) {
      B[ r ][ 0 ] = avg3( P, A[ 0 ], A[ 1 ] );
      B[ r ][ 1 ] = avg3( A[ 0 ], A[ 1 ], A[ 2 ] );
      B[ r ][ 2 ] = avg3( A[ 1 ], A[ 2 ], A[ 3 ] );
      B[ r ][ 3 ] = avg3( A[ 2 ], A[ 3 ], A[ 4 ] );
    }
  } else if ( mode == 3 ) { /* B_HE_PRED */
    for ( int c = 0; c < 4; c++ ) {
      B[ 0 ][ c ] = avg3( P, L[ 0 ], L[ 1 ] );
      B[ 1 ][ c ] = avg3( L[ 0 ], L[ 1 ], L[ 2 ] );
      B[ 2 ][ c ] = avg3( L[ 1 ], L[ 2 ], L[ 3 ] );
      B[ 3 ][ c ] = avg3( L[ 2 ], L[ 3 ], L[ 3 ] );
    }
  } else if ( mode == 4 ) { /* B_LD_PRED */
    B[ 0 ][ 0 ] = avg3( A[ 0 ], A[ 1 ], A[ 2 ] );
    B[ 0 ][ 1 ] = B[ 1 ][ 0 ] = avg3( A[ 1 ], A[ 2 ], A[ 3 ] );
    B[ 0 ][ 2 ] = B[ 1 ][ 1 ] = B[ 2 ][ 0 ] = avg3( A[ 2 ], A[ 3 ], A[ 4 ] );
    B[ 0 ][ 3 ] = B[ 1 ][ 2 ] = B[ 2 ][ 1 ] = B[ 3 ][ 0 ] = avg3( A[ 3 ], A[ 4 ], A[ 5 ] );
    B[ 1 ][ 3 ] = B[ 2 ][ 2 ] = B[ 3 ][ 1 ] = avg3( A[ 4 ], A[ 5 ], A[ 6 ] );
    B[ 2 ][ 3 ] = B[ 3 ][ 2 ] = avg3( A[ 5 ], A[ 6 ], A[ 7 ] );
    B[ 3 ][ 3 ] = avg3( A[ 6 ], A[ 7 ], A[ 7 ] );
  } else if ( mode == 5 ) { /* B_RD_PRED */
    B[ 3 ][ 0 ] = avg3( E[ 0 ], E[ 1 ], E[ 2 ] );
    B[ 3 ][ 1 ] = B[ 2 ][ 0 ] = avg3( E[ 1 ], E[ 2 ], E[ 3 ] );
    B[ 3 ][ 2 ] = B[ 2 ][ 1 ] = B[ 1 ][ 0 ] = avg3( E[ 2 ], E[ 3 ], E[ 4 ] );
    B[ 3 ][ 3 ] = B[ 2 ][ 2 ] = B[ 1 ][ 1 ] = B[ 0 ][ 0 ] = avg3( E[ 3 ], E[ 4 ], E[ 5 ] );
    B[ 2 ][ 3 ] = B[ 1 ][ 2 ] = B[ 0 ][ 1 ] = avg3( E[ 4 ], E[ 5 ], E[ 6 ] );
    B[ 1 ][ 3 ] = B[ 0 ][ 2 ] = avg3( E[ 5 ], E[ 6 ], E[ 7 ] );
    B[ 0 ][ 3 ] = avg3( E[ 6 ], E[ 7 ], E[ 8 ] );
  } else if ( mode == 6 ) { /* B_VR_PRED */
    B[ 3 ][ 0 ] = avg3( E[ 1 ], E[ 2 ], E[ 3 ] );
    B[ 2 ][ 0 ] = avg3( E[ 2 ], E[ 3 ], E[ 4 ] );
    B[ 3 ][ 1 ] = B[ 1 ][ 0 ] = avg3( E[ 3 ], E[ 4 ], E[ 5 ] );
    B[ 2 ][ 1 ] = B[ 0 ][ 0 ] = avg2( E[ 4 ], E[ 5 ] );
    B[ 3 ][ 2 ] = B[ 1 ][ 1 ] = avg3( E[ 4 ], E[ 5 ], E[ 6 ] );
    B[ 2 ][ 2 ] = B[ 0 ][ 1 ] = avg2( E[ 5 ], E[ 6 ] );
    B[ 3 ][ 3 ] = B[ 1 ][ 2 ] = avg3( E[ 5 ], E[ 6 ], E[ 7 ] );
    B[ 2 ][ 3 ] = B[ 0 ][ 2 ] = avg2( E[ 6 ], E[ 7 ] );
    B[ 1 ][ 3 ] = avg3( E[ 6 ], E[ 7 ], E[ 8 ] );
    B[ 0 ][ 3 ] = avg2( E[ 7 ], E[ 8 ] );
  } else if ( mode == 7 ) { /* B_VL_PRED */
    B[ 0 ][ 0 ] = avg2( A[ 0 ], A[ 1 ] );
    B[ 1 ][ 0 ] = avg3( A[ 0 ], A[ 1 ], A[ 2 ] );
    B[ 2 ][ 0 ] = B[ 0 ][ 1 ] = avg2( A[ 1 ], A[ 2 ] );
    B[ 1 ][ 1 ] = B[ 3 ][ 0 ] = avg3( A[ 1 ], A[ 2 ], A[ 3 ] );
    B[ 2 ][ 1 ] = B[ 0 ][ 2 ] = avg2( A[ 2 ], A[ 3 ] );
    B[ 3 ][ 1 ] = B[ 1 ][ 2 ] = avg3( A[ 2 ], A[ 3 ], A[ 4 ] );
    B[ 2 ][ 2 ] = B[ 0 ][ 3 ] = avg2( A[ 3 ], A[ 4 ] );
    B[ 3 ][ 2 ] = B[ 1 ][ 3 ] = avg3( A[ 3 ], A[ 4 ], A[ 5 ] );
    B[ 2 ][ 3 ] = avg3( A[ 4 ], A[ 5 ], A[ 6 ] );
    B[ 3 ][ 3 ] = avg3( A[ 5 ], A[ 6 ], A[ 7 ] );
  } else if ( mode == 8 ) { /* B_HD_PRED */
    B[ 3 ][ 0 ] = avg2( E[ 0 ], E[ 1 ] );
    B[ 3 ][ 1 ] = avg3( E[ 0 ], E[ 1 ], E[ 2 ] );
    B[ 2 ][ 0 ] = B[ 3 ][ 2 ] = avg2( E[ 1 ], E[ 2 ] );
    B[ 2 ][ 1 ] = B[ 3 ][ 3 ] = avg3( E[ 1 ], E[ 2 ], E[ 3 ] );
    B[ 2 ][ 2 ] = B[ 1 ][ 0 ] = avg2( E[ 2 ], E[ 3 ] );
    B[ 2 ][ 3 ] = B[ 1 ][ 1 ] = avg3( E[ 2 ], E[ 3 ], E[ 4 ] );
    B[ 1 ][ 2 ] = B[ 0 ][ 0 ] = avg2( E[ 3 ], E[ 4 ] );
    B[ 1 ][ 3 ] = B[ 0 ][ 1 ] = avg3( E[ 3 ], E[ 4 ], E[ 5 ] );
    B[ 0 ][ 2 ] = avg3( E[ 4 ], E[ 5 ], E[ 6 ] );
    B[ 0 ][ 3 ] = avg3( E[ 5 ], E[ 6 ], E[ 7 ] );
  } else { /* B_HU_PRED */
    B[ 0 ][ 0 ] = avg2( L[ 0 ], L[ 1 ] );
    B[ 0 ][ 1 ] = avg3( L[ 0 ], L[ 1 ], L[ 2 ] );
    B[ 0 ][ 2 ] = B[ 1 ][ 0 ] = avg2( L[ 1 ], L[ 2 ] );
    B[ 0 ][ 3 ] = B[ 1 ][ 1 ] = avg3( L[ 1 ], L[ 2 ], L[ 3 ] );
    B[ 1 ][ 2 ] = B[ 2 ][ 0 ] = avg2( L[ 2 ], L[ 3 ] );
    B[ 1 ][ 3 ] = B[ 2 ][ 1 ] = avg3( L[ 2 ], L[ 3 ], L[ 3 ] );
    B[ 2 ][ 2 ] = B[ 2 ][ 3 ] = B[ 3 ][ 0 ] = B[ 3 ][ 1 ] = B[ 3 ][ 2 ] = B[ 3 ][ 3 ] = L[ 3 ];
  }
  for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) out[ 4 * r + c ] = B[ r ][ c ];
}

/* ------------------------------------------------ RFC 6386 section 18: one predicted pixel */
static inline int six_tap( const int * f, int a, int b, int c, int d, int e, int g )
{ return clamp255( ( a * f[ 0 ] + b * f[ 1 ] + c * f[ 2 ] + d * f[ 3 ] + e * f[ 4 ] + g * f[ 5 ] + 64 ) >> 7 ); }

static const int filters[ 8 ][ 6 ] = { { 0, 0, 128, 0, 0, 0 }, { 0, -6, 123, 12, -1, 0 }, { 2, -11, 108, 36, -8, 1 }, { 0, -9, 93, 50, -6, 0 },
                                       { 3, -16, 77, 77, -16, 3 }, { 0, -6, 50, 93, -9, 0 }, { 1, -8, 36, 108, -11, 2 }, { 0, -1, 12, 123, -6, 0 } };

static inline int lim( int v, int n ) { return v < 0 ? 0 : v > n - 1 ? n - 1 : v; }

/* x, y: pixel position pointed to by the whole part of the motion vector; mx, my: eighths */
int inter_pixel( const uint8_t * p, int w, int h, int x, int y, int mx, int my )
{
  int t[ 6 ];
  if ( my == 0 ) {
    if ( mx == 0 ) return p[ lim( y, h ) * w + lim( x, w ) ];
    for ( int i = 0; i < 6; i++ ) t[ i ] = p[ lim( y, h ) * w + lim( x - 2 + i, w ) ];
    return six_tap( filters[ mx ], t[ 0 ], t[ 1 ], t[ 2 ], t[ 3 ], t[ 4 ], t[ 5 ] );
  }
  for ( int r = 0; r < 6; r++ ) {
    const int row = lim( y - 2 + r, h ) * w;
    if ( mx == 0 )
      t[ r ] = p[ row + lim( x, w ) ];
    else
      t[ r ] = six_tap( filters[ mx ], p[ row + lim( x - 2, w ) ], p[ row + lim( x - 1, w ) ], p[ row + lim( x, w ) ], p[ row + lim( x + 1, w ) ], p[ row + lim( x + 2, w ) ], p[ row + lim( x + 3, w ) ] );
  }
  return six_tap( filters[ my ], t[ 0 ], t[ 1 ], t[ 2 ], t[ 3 ], t[ 4 ], t[ 5 ] );
}
}
