// reference digests
#ifndef DIGEST_HPP
#define DIGEST_HPP
#include <cstdint>
typedef std::uint8_t u8; typedef std::uint32_t u32;
// ---- reference implementations (RFC 1321, RFC 3174) over a bit string
static u32 rot(u32 x, int s) { return (x << s) | (x >> (32 - s)); }
static const u32 MT[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int MS[16] = {7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
static const int CAP = 256;
// the message, 0x80 after its last bit, zeros, the length in bits
static int padded(u8 const* m, int bits, u8* b, bool big) { int n = bits / 8; for (int i = 0; i < CAP; ++i) b[i] = 0; for (int i = 0; i < n; ++i) b[i] = m[i]; int r = bits % 8; if (r) b[n] = m[n] & (u8)(0xff << (8 - r)); b[n] |= (u8)(0x80 >> r); int len = (n + 1 + 8 + 63) / 64 * 64; for (int i = 0; i < 8; ++i) { u8 v = (u8)((ull)bits >> (8 * i)); b[big ? len - 1 - i : len - 8 + i] = v; } return len; }
static void ref_md5(u8 const* m, int bits, u8* out) { u8 b[CAP]; int len = padded(m, bits, b, false); u32 h[4] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476};
  for (int p = 0; p < len; p += 64) { u32 x[16]; for (int i = 0; i < 16; ++i) x[i] = (u32)b[p + 4 * i] | (u32)b[p + 4 * i + 1] << 8 | (u32)b[p + 4 * i + 2] << 16 | (u32)b[p + 4 * i + 3] << 24; u32 A = h[0], B = h[1], C = h[2], D = h[3];
    for (int i = 0; i < 64; ++i) { u32 F; int g; if (i < 16) { F = (B & C) | (~B & D); g = i; } else if (i < 32) { F = (B & D) | (C & ~D); g = (5 * i + 1) % 16; } else if (i < 48) { F = B ^ C ^ D; g = (3 * i + 5) % 16; } else { F = C ^ (B | ~D); g = (7 * i) % 16; } u32 t = D; D = C; C = B; B = B + rot(A + F + x[g] + MT[i], MS[i / 16 * 4 + i % 4]); A = t; }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D; }
  for (int i = 0; i < 16; ++i) out[i] = (u8)(h[i / 4] >> (8 * (i % 4))); }
static void ref_sha1(u8 const* m, int n, u8* out) { u8 b[CAP]; int len = padded(m, n * 8, b, true); u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  for (int p = 0; p < len; p += 64) { u32 w[80]; for (int i = 0; i < 16; ++i) w[i] = (u32)b[p + 4 * i] << 24 | (u32)b[p + 4 * i + 1] << 16 | (u32)b[p + 4 * i + 2] << 8 | (u32)b[p + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rot(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); u32 a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) { u32 f, k; if (i < 20) { f = (bb & c) | (~bb & d); k = 0x5A827999; } else if (i < 40) { f = bb ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (bb & c) | (bb & d) | (c & d); k = 0x8F1BBCDC; } else { f = bb ^ c ^ d; k = 0xCA62C1D6; } u32 t = rot(a, 5) + f + e + k + w[i]; e = d; d = c; c = rot(bb, 30); bb = a; a = t; }
    h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; }
  for (int i = 0; i < 20; ++i) out[i] = (u8)(h[i / 4] >> (24 - 8 * (i % 4))); }
#endif
