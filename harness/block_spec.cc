// The published block functions, written from the standards, below the framing of digest_spec.cc. Analysed, never executed.
#include "digest_spec.cc"

namespace blk {
using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
static inline u32 L(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
static inline u32 R(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
static inline u64 R64(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
static inline u32 Le32(const u8* p) { return p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; }
static inline u32 Be32(const u8* p) { return p[3] | (u32)p[2] << 8 | (u32)p[1] << 16 | (u32)p[0] << 24; }
static inline u64 Be64(const u8* p) { return (u64)Be32(p) << 32 | Be32(p + 4); }
static inline u64 Le64(const u8* p) { return (u64)Le32(p + 4) << 32 | Le32(p); }
static constexpr u32 kMd5T[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
    0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
    0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
    0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
    0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391,
};
static constexpr int kMd5S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
static constexpr u32 kK256[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
};
static constexpr u64 kK512[80] = {
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019,
    0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3,
    0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725,
    0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df,
    0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b, 0xa2bfe8a14cf10364, 0xa81a664bbc423001,
    0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb,
    0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c, 0xd186b8c721c0c207,
    0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a,
    0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
};
static constexpr u64 kRc[24] = {
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
};
static constexpr u8 kSigma[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
}  // namespace blk

extern "C" {
void vp_spec_md5(std::uint32_t* h, const unsigned char* block) {
  using namespace blk;
  u32 a = h[0], b = h[1], c = h[2], d = h[3];
  for (int i = 0; i < 64; ++i) {
    u32 f;
    int g;
    if (i < 16) f = (b & c) | (~b & d), g = i;
    else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16;
    else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16;
    else f = c ^ (b | ~d), g = (7 * i) % 16;
    const u32 t = a + f + kMd5T[i] + Le32(block + 4 * g);
    a = d;
    d = c;
    c = b;
    b = b + L(t, kMd5S[i / 16][i % 4]);
  }
  h[0] += a, h[1] += b, h[2] += c, h[3] += d;
}
void vp_spec_sha1(std::uint32_t* h, const unsigned char* block) {
  using namespace blk;
  u32 w[80];
  for (int i = 0; i < 16; ++i) w[i] = Be32(block + 4 * i);
  for (int i = 16; i < 80; ++i) w[i] = L(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
  u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
  for (int i = 0; i < 80; ++i) {
    u32 f, k;
    if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999;
    else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
    else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc;
    else f = b ^ c ^ d, k = 0xca62c1d6;
    const u32 t = L(a, 5) + f + e + k + w[i];
    e = d, d = c, c = L(b, 30), b = a, a = t;
  }
  h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
}
void vp_spec_sha256(std::uint32_t* h, const unsigned char* block) {
  using namespace blk;
  u32 w[64];
  for (int i = 0; i < 16; ++i) w[i] = Be32(block + 4 * i);
  for (int i = 16; i < 64; ++i)
    w[i] = w[i - 16] + (R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ (w[i - 2] >> 10));
  u32 v[8];
  for (int i = 0; i < 8; ++i) v[i] = h[i];
  for (int i = 0; i < 64; ++i) {
    const u32 t1 = v[7] + (R(v[4], 6) ^ R(v[4], 11) ^ R(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + kK256[i] + w[i];
    const u32 t2 = (R(v[0], 2) ^ R(v[0], 13) ^ R(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for (int j = 7; j > 0; --j) v[j] = v[j - 1];
    v[4] += t1;
    v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; ++i) h[i] += v[i];
}
void vp_spec_sha512(std::uint64_t* h, const unsigned char* block) {
  using namespace blk;
  u64 w[80];
  for (int i = 0; i < 16; ++i) w[i] = Be64(block + 8 * i);
  for (int i = 16; i < 80; ++i)
    w[i] = w[i - 16] + (R64(w[i - 15], 1) ^ R64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 7] + (R64(w[i - 2], 19) ^ R64(w[i - 2], 61) ^ (w[i - 2] >> 6));
  u64 v[8];
  for (int i = 0; i < 8; ++i) v[i] = h[i];
  for (int i = 0; i < 80; ++i) {
    const u64 t1 = v[7] + (R64(v[4], 14) ^ R64(v[4], 18) ^ R64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + kK512[i] + w[i];
    const u64 t2 = (R64(v[0], 28) ^ R64(v[0], 34) ^ R64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for (int j = 7; j > 0; --j) v[j] = v[j - 1];
    v[4] += t1;
    v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; ++i) h[i] += v[i];
}
void vp_spec_blake2b(std::uint64_t* h, const unsigned char* block, std::uint64_t t, bool last) {
  using namespace blk;
  u64 v[16], m[16];
  constexpr u64 iv[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
                         0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};
  for (int i = 0; i < 8; ++i) v[i] = h[i], v[i + 8] = iv[i];
  v[12] ^= t;
  if (last) v[14] = ~v[14];
  for (int i = 0; i < 16; ++i) m[i] = Le64(block + 8 * i);
  constexpr int col[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
  for (int r = 0; r < 12; ++r)
    for (int i = 0; i < 8; ++i) {
      u64 a = v[col[i][0]], b = v[col[i][1]], c = v[col[i][2]], d = v[col[i][3]];
      a = a + b + m[kSigma[r % 10][2 * i]];
      d = R64(d ^ a, 32);
      c = c + d;
      b = R64(b ^ c, 24);
      a = a + b + m[kSigma[r % 10][2 * i + 1]];
      d = R64(d ^ a, 16);
      c = c + d;
      b = R64(b ^ c, 63);
      v[col[i][0]] = a, v[col[i][1]] = b, v[col[i][2]] = c, v[col[i][3]] = d;
    }
  for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
}
void vp_spec_blake3(std::uint32_t* out, const std::uint32_t* cv, const unsigned char* block, std::uint64_t counter, std::uint32_t len,
                    std::uint32_t flags) {
  using namespace blk;
  u32 v[16], m[16], p[16], in[8];
  for (int i = 0; i < 8; ++i) v[i] = in[i] = cv[i];
  for (int i = 0; i < 4; ++i) v[8 + i] = spec::kIv[i];
  v[12] = (u32)counter, v[13] = (u32)(counter >> 32), v[14] = len, v[15] = flags;
  for (int i = 0; i < 16; ++i) m[i] = Le32(block + 4 * i);
  constexpr int col[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
  constexpr int perm[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
  for (int r = 0; r < 7; ++r) {
    for (int i = 0; i < 8; ++i) {
      u32 a = v[col[i][0]], b = v[col[i][1]], c = v[col[i][2]], d = v[col[i][3]];
      a = a + b + m[2 * i];
      d = R(d ^ a, 16);
      c = c + d;
      b = R(b ^ c, 12);
      a = a + b + m[2 * i + 1];
      d = R(d ^ a, 8);
      c = c + d;
      b = R(b ^ c, 7);
      v[col[i][0]] = a, v[col[i][1]] = b, v[col[i][2]] = c, v[col[i][3]] = d;
    }
    for (int i = 0; i < 16; ++i) p[i] = m[perm[i]];
    for (int i = 0; i < 16; ++i) m[i] = p[i];
  }
  for (int i = 0; i < 8; ++i) out[i] = v[i] ^ v[i + 8], out[i + 8] = v[i + 8] ^ in[i];
}
void vp_spec_keccak(std::uint64_t* a) {
  using namespace blk;
  constexpr int rot[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
  for (int r = 0; r < 24; ++r) {
    u64 c[5], b[25];
    for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; ++x) {
      const u64 d = c[(x + 4) % 5] ^ R64(c[(x + 1) % 5], 63);
      for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
    }
    for (int x = 0; x < 5; ++x)
      for (int y = 0; y < 5; ++y) {
        const int s = rot[x + 5 * y];
        b[y + 5 * ((2 * x + 3 * y) % 5)] = s == 0 ? a[x + 5 * y] : R64(a[x + 5 * y], 64 - s);
      }
    for (int x = 0; x < 5; ++x)
      for (int y = 0; y < 25; y += 5) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
    a[0] ^= kRc[r];
  }
}
}
