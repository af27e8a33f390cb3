// Prelude of the C emitted by ll2c (input to CBMC).
#ifndef VP_PRELUDE_H
#define VP_PRELUDE_H
typedef unsigned char vp_u8; typedef unsigned short vp_u16; typedef unsigned int vp_u32; typedef unsigned long vp_u64; typedef unsigned __int128 vp_u128;
typedef signed char vp_s8; typedef short vp_s16; typedef int vp_s32; typedef long vp_s64; typedef __int128 vp_s128;
typedef _Bool vp_b; typedef signed __CPROVER_bitvector[1] vp_s1;
typedef vp_u8* vp_p;
#define VP_INFF (__builtin_inff())
#define VP_INF (__builtin_inf())
#define VP_NANF (__builtin_nanf(""))
#define VP_NAN (__builtin_nan(""))

vp_b vp_exc; int vp_exc_ti; vp_p vp_exc_obj; vp_u64 vp_exc_buf[16];
static void vp_throw(vp_p o, int ti) { vp_exc = 1; vp_exc_obj = o; vp_exc_ti = ti; }
static void vp_ubtrap(vp_u32 k) { __CPROVER_assert(0, "UB"); __CPROVER_assume(0); }
static void vp_unmodelled(void) { __CPROVER_assert(0, "UNMODELLED"); __CPROVER_assume(0); }
static void vp_terminate(void) { __CPROVER_assert(0, "TERMINATE"); __CPROVER_assume(0); }
static void vp_unreachable(void) { __CPROVER_assert(0, "UNREACHABLE"); __CPROVER_assume(0); }
static void vp_assert_fail(void) { __CPROVER_assert(0, "ASSERT_FAIL"); __CPROVER_assume(0); }

vp_u8 vp_nd_u8(void) { vp_u8 x; __CPROVER_input("nd", x); return x; }
vp_u16 vp_nd_u16(void) { vp_u16 x; __CPROVER_input("nd", x); return x; }
vp_u32 vp_nd_u32(void) { vp_u32 x; __CPROVER_input("nd", x); return x; }
vp_u64 vp_nd_u64(void) { vp_u64 x; __CPROVER_input("nd", x); return x; }

static void vp_memcpy(vp_p d, vp_p s, vp_u64 n) { for (vp_u64 i = 0; i < n; i++) d[i] = s[i]; }
static void vp_memmove(vp_p d, vp_p s, vp_u64 n) {
  if (n == 0 || d == s) return;
  if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) { for (vp_u64 i = n; i > 0; i--) d[i-1] = s[i-1]; }
  else for (vp_u64 i = 0; i < n; i++) d[i] = s[i];
}
static void vp_memset(vp_p d, vp_u8 c, vp_u64 n) { for (vp_u64 i = 0; i < n; i++) d[i] = c; }
static int vp_memcmp(vp_p a, vp_p b, vp_u64 n) { for (vp_u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static vp_p vp_memchr(vp_p a, vp_u32 c, vp_u64 n) { for (vp_u64 i = 0; i < n; i++) if (a[i] == (vp_u8)c) return a + i; return (vp_p)0; }
static vp_u64 vp_strlen(vp_p a) { vp_u64 i = 0; while (a[i]) i++; return i; }

#define VP_BITS(W) \
static vp_u##W vp_ctpop##W(vp_u##W x) { vp_u##W r = 0; for (int i = 0; i < W; i++) r = (vp_u##W)(r + ((x >> i) & 1)); return r; } \
static vp_u##W vp_ctlz##W(vp_u##W x) { vp_u##W r = W; for (int i = 0; i < W; i++) if ((x >> i) & 1) r = (vp_u##W)(W - 1 - i); return r; } \
static vp_u##W vp_cttz##W(vp_u##W x) { vp_u##W r = W; for (int i = W - 1; i >= 0; i--) if ((x >> i) & 1) r = (vp_u##W)i; return r; } \
static vp_u##W vp_bitrev##W(vp_u##W x) { vp_u##W r = 0; for (int i = 0; i < W; i++) r = (vp_u##W)(r | (((x >> i) & 1) << (W - 1 - i))); return r; }
VP_BITS(8)
VP_BITS(16)
VP_BITS(32)
VP_BITS(64)
static vp_u16 vp_bswap16(vp_u16 x) { return (vp_u16)((x << 8) | (x >> 8)); }
static vp_u32 vp_bswap32(vp_u32 x) { return (x << 24) | ((x & 0xff00u) << 8) | ((x >> 8) & 0xff00u) | (x >> 24); }
static vp_u64 vp_bswap64(vp_u64 x) { return ((vp_u64)vp_bswap32((vp_u32)x) << 32) | vp_bswap32((vp_u32)(x >> 32)); }

// floating point: bit-level where possible, CBMC's models of the C library otherwise
static float vp_fabsf(float x) { return __builtin_fabsf(x); }
static double vp_fabs(double x) { return __builtin_fabs(x); }
static long double vp_fabsl(long double x) { return __builtin_fabsl(x); }
static float vp_copysignf(float x, float y) { vp_u32 a = *(vp_u32*)&x, b = *(vp_u32*)&y; a = (a & 0x7fffffffu) | (b & 0x80000000u); return *(float*)&a; }
static double vp_copysign(double x, double y) { vp_u64 a = *(vp_u64*)&x, b = *(vp_u64*)&y; a = (a & 0x7fffffffffffffffull) | (b & 0x8000000000000000ull); return *(double*)&a; }
float floorf(float); double floor(double); float ceilf(float); double ceil(double); float truncf(float); double trunc(double);
float roundf(float); double round(double); float rintf(float); double rint(double); float sqrtf(float); double sqrt(double);
float fmodf(float, float); double fmod(double, double); float fmaf(float, float, float); double fma(double, double, double);
static float vp_floorf(float x) { return floorf(x); } static double vp_floor(double x) { return floor(x); }
static float vp_ceilf(float x) { return ceilf(x); } static double vp_ceil(double x) { return ceil(x); }
static float vp_truncf(float x) { return truncf(x); } static double vp_trunc(double x) { return trunc(x); }
static float vp_roundf(float x) { return roundf(x); } static double vp_round(double x) { return round(x); }
static float vp_rintf(float x) { return rintf(x); } static double vp_rint(double x) { return rint(x); }
static float vp_sqrtf(float x) { return sqrtf(x); } static double vp_sqrt(double x) { return sqrt(x); }
static float vp_fmodf(float x, float y) { return fmodf(x, y); } static double vp_fmod(double x, double y) { return fmod(x, y); }
static float vp_fmaf(float x, float y, float z) { return fmaf(x, y, z); } static double vp_fma(double x, double y, double z) { return fma(x, y, z); }
static float vp_fminf(float x, float y) { return x != x ? y : y != y ? x : x < y ? x : y; } static double vp_fmin(double x, double y) { return x != x ? y : y != y ? x : x < y ? x : y; }
static float vp_fmaxf(float x, float y) { return x != x ? y : y != y ? x : x > y ? x : y; } static double vp_fmax(double x, double y) { return x != x ? y : y != y ? x : x > y ? x : y; }
// llvm.is.fpclass: 1 snan 2 qnan 4 -inf 8 -normal 16 -subnormal 32 -0 64 +0 128 +subnormal 256 +normal 512 +inf
static vp_b vp_fpclassf(float x, vp_u32 m) {
  vp_u32 b = *(vp_u32*)&x, s = b >> 31, e = (b >> 23) & 255, f = b & 0x7fffffu; vp_u32 k;
  if (e == 255) k = f ? ((f >> 22) & 1 ? 2 : 1) : (s ? 4 : 512); else if (e == 0) k = f ? (s ? 16 : 128) : (s ? 32 : 64); else k = s ? 8 : 256;
  return (k & m) != 0; }
static vp_b vp_fpclass(double x, vp_u32 m) {
  vp_u64 b = *(vp_u64*)&x, s = b >> 63, e = (b >> 52) & 2047, f = b & 0xfffffffffffffull; vp_u32 k;
  if (e == 2047) k = f ? ((f >> 51) & 1 ? 2 : 1) : (s ? 4 : 512); else if (e == 0) k = f ? (s ? 16 : 128) : (s ? 32 : 64); else k = s ? 8 : 256;
  return (k & m) != 0; }
#endif
