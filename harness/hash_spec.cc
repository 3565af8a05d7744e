// Reference formulations of the published hash algorithms and of the documented completions, beside the library's own entries.
// Compiled to LLVM IR and compared term by term; never executed.
#include "digest_api.cc"

namespace ref {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using u128 = unsigned __int128;

inline u64 Le64(const char* p) {
  u64 r;
  __builtin_memcpy(&r, p, 8);
  return r;
}
inline u32 Le32(const char* p) {
  u32 r;
  __builtin_memcpy(&r, p, 4);
  return r;
}
inline u64 Byte(const char* p) { return static_cast<u8>(*p); }
inline u64 Rotl(u64 x, unsigned r) { return (x << r) | (x >> (64 - r)); }
inline u64 Fold(u64 a, u64 b) {
  const u128 m = static_cast<u128>(a) * b;
  return static_cast<u64>(m) ^ static_cast<u64>(m >> 64);
}
inline u64 Mix64(u64 k) {  // fmix64
  k ^= k >> 33;
  k *= 0xff51afd7ed558ccdULL;
  k ^= k >> 33;
  k *= 0xc4ceb9fe1a85ec53ULL;
  return k ^ (k >> 33);
}
// The n (0..8) bytes at p as a little-endian number.
inline u64 Tail(const char* p, std::size_t n) {
  u64 r = 0;
  for (std::size_t i = 0; i < n; ++i) r |= Byte(p + i) << (8 * i);
  return r;
}

inline u64 Fnv1a(const char* p, std::size_t n, u64 h) {
  for (std::size_t i = 0; i < n; ++i) h = (h ^ Byte(p + i)) * 0x100000001b3ULL;
  return h;
}

struct Sip {
  u64 a, b, c, d;
  void Round() {
    a += b; b = Rotl(b, 13); b ^= a; a = Rotl(a, 32);
    c += d; d = Rotl(d, 16); d ^= c;
    a += d; d = Rotl(d, 21); d ^= a;
    c += b; b = Rotl(b, 17); b ^= c; c = Rotl(c, 32);
  }
};
template<int C, int D>
inline u64 SipHash(const char* p, std::size_t n, u64 k0, u64 k1) {
  Sip s{k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
  std::size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    const u64 m = Le64(p + i);
    s.d ^= m;
    for (int r = 0; r < C; ++r) s.Round();
    s.a ^= m;
  }
  const u64 last = (static_cast<u64>(n) << 56) | Tail(p + i, n - i);
  s.d ^= last;
  for (int r = 0; r < C; ++r) s.Round();
  s.a ^= last;
  s.c ^= 0xff;
  for (int r = 0; r < D; ++r) s.Round();
  return s.a ^ s.b ^ s.c ^ s.d;
}

inline void Murmur3(const char* p, std::size_t n, u64 seed, u64* out) {
  const u64 c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  u64 h1 = seed, h2 = seed;
  std::size_t i = 0;
  for (; i + 16 <= n; i += 16) {
    h1 ^= Rotl(Le64(p + i) * c1, 31) * c2;
    h1 = (Rotl(h1, 27) + h2) * 5 + 0x52dce729;
    h2 ^= Rotl(Le64(p + i + 8) * c2, 33) * c1;
    h2 = (Rotl(h2, 31) + h1) * 5 + 0x38495ab5;
  }
  const std::size_t t = n - i;
  if (t > 8) h2 ^= Rotl(Tail(p + i + 8, t - 8) * c2, 33) * c1;
  if (t > 0) h1 ^= Rotl(Tail(p + i, t > 8 ? 8 : t) * c1, 31) * c2;
  h1 ^= n;
  h2 ^= n;
  h1 += h2;
  h2 += h1;
  h1 = Mix64(h1);
  h2 = Mix64(h2);
  h1 += h2;
  h2 += h1;
  out[0] = h1;
  out[1] = h2;
}

inline constexpr u64 P1 = 0x9E3779B185EBCA87ULL, P2 = 0xC2B2AE3D27D4EB4FULL, P3 = 0x165667B19E3779F9ULL, P4 = 0x85EBCA77C2B2AE63ULL,
                     P5 = 0x27D4EB2F165667C5ULL;
inline u64 XRound(u64 acc, u64 in) { return Rotl(acc + in * P2, 31) * P1; }
inline u64 XMerge(u64 h, u64 v) { return (h ^ XRound(0, v)) * P1 + P4; }
inline u64 XAvalanche(u64 h) {
  h ^= h >> 33;
  h *= P2;
  h ^= h >> 29;
  h *= P3;
  return h ^ (h >> 32);
}
inline u64 Xxh64(const char* p, std::size_t n, u64 seed) {
  std::size_t i = 0;
  u64 h;
  if (n >= 32) {
    u64 v1 = seed + P1 + P2, v2 = seed + P2, v3 = seed, v4 = seed - P1;
    for (; i + 32 <= n; i += 32) {
      v1 = XRound(v1, Le64(p + i));
      v2 = XRound(v2, Le64(p + i + 8));
      v3 = XRound(v3, Le64(p + i + 16));
      v4 = XRound(v4, Le64(p + i + 24));
    }
    h = Rotl(v1, 1) + Rotl(v2, 7) + Rotl(v3, 12) + Rotl(v4, 18);
    h = XMerge(XMerge(XMerge(XMerge(h, v1), v2), v3), v4);
  } else {
    h = seed + P5;
  }
  h += n;
  for (; i + 8 <= n; i += 8) h = Rotl(h ^ XRound(0, Le64(p + i)), 27) * P1 + P4;
  if (i + 4 <= n) {
    h = Rotl(h ^ (static_cast<u64>(Le32(p + i)) * P1), 23) * P2 + P3;
    i += 4;
  }
  for (; i < n; ++i) h = Rotl(h ^ (Byte(p + i) * P5), 11) * P1;
  return XAvalanche(h);
}

inline constexpr u64 kRapid[8] = {0x2d358dccaa6c78a5ULL, 0x8bb84b93962eacc9ULL, 0x4b33a62ed433d4a3ULL, 0x4d5a2da51de1aa47ULL,
                                  0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x90ed1765281c388cULL, 0xaaaaaaaaaaaaaaaaULL};
inline u64 Rapid(const char* p, std::size_t n, u64 seed) {
  seed ^= Fold(seed ^ kRapid[2], kRapid[1]);
  u64 a = 0, b = 0;
  std::size_t i = n;
  if (n <= 16) {
    if (n >= 4) {
      seed ^= n;
      if (n >= 8) a = Le64(p), b = Le64(p + n - 8);
      else a = Le32(p), b = Le32(p + n - 4);
    } else if (n > 0) {
      a = (Byte(p) << 45) | Byte(p + n - 1);
      b = Byte(p + (n >> 1));
    }
  } else {
    if (n > 112) {
      u64 s[7] = {seed, seed, seed, seed, seed, seed, seed};
      do {
        for (int k = 0; k < 7; ++k) s[k] = Fold(Le64(p + 16 * k) ^ kRapid[k], Le64(p + 16 * k + 8) ^ s[k]);
        p += 112;
        i -= 112;
      } while (i > 112);
      seed = (s[0] ^ s[1] ^ s[6]) ^ ((s[2] ^ s[3]) ^ (s[4] ^ s[5]));
    }
    if (i > 16) {
      seed = Fold(Le64(p) ^ kRapid[2], Le64(p + 8) ^ seed);
      if (i > 32) seed = Fold(Le64(p + 16) ^ kRapid[2], Le64(p + 24) ^ seed);
      if (i > 48) seed = Fold(Le64(p + 32) ^ kRapid[1], Le64(p + 40) ^ seed);
      if (i > 64) seed = Fold(Le64(p + 48) ^ kRapid[1], Le64(p + 56) ^ seed);
      if (i > 80) seed = Fold(Le64(p + 64) ^ kRapid[2], Le64(p + 72) ^ seed);
      if (i > 96) seed = Fold(Le64(p + 80) ^ kRapid[1], Le64(p + 88) ^ seed);
    }
    a = Le64(p + i - 16) ^ i;
    b = Le64(p + i - 8);
  }
  a ^= kRapid[1];
  b ^= seed;
  const u128 m = static_cast<u128>(a) * b;
  return Fold(static_cast<u64>(m) ^ kRapid[7], static_cast<u64>(m >> 64) ^ kRapid[1] ^ i);
}

inline constexpr unsigned char kX3[192] = {
    0xb8, 0xfe, 0x6c, 0x39, 0x23, 0xa4, 0x4b, 0xbe, 0x7c, 0x01, 0x81, 0x2c, 0xf7, 0x21, 0xad, 0x1c, 0xde, 0xd4, 0x6d, 0xe9, 0x83, 0x90,
    0x97, 0xdb, 0x72, 0x40, 0xa4, 0xa4, 0xb7, 0xb3, 0x67, 0x1f, 0xcb, 0x79, 0xe6, 0x4e, 0xcc, 0xc0, 0xe5, 0x78, 0x82, 0x5a, 0xd0, 0x7d,
    0xcc, 0xff, 0x72, 0x21, 0xb8, 0x08, 0x46, 0x74, 0xf7, 0x43, 0x24, 0x8e, 0xe0, 0x35, 0x90, 0xe6, 0x81, 0x3a, 0x26, 0x4c, 0x3c, 0x28,
    0x52, 0xbb, 0x91, 0xc3, 0x00, 0xcb, 0x88, 0xd0, 0x65, 0x8b, 0x1b, 0x53, 0x2e, 0xa3, 0x71, 0x64, 0x48, 0x97, 0xa2, 0x0d, 0xf9, 0x4e,
    0x38, 0x19, 0xef, 0x46, 0xa9, 0xde, 0xac, 0xd8, 0xa8, 0xfa, 0x76, 0x3f, 0xe3, 0x9c, 0x34, 0x3f, 0xf9, 0xdc, 0xbb, 0xc7, 0xc7, 0x0b,
    0x4f, 0x1d, 0x8a, 0x51, 0xe0, 0x4b, 0xcd, 0xb4, 0x59, 0x31, 0xc8, 0x9f, 0x7e, 0xc9, 0xd9, 0x78, 0x73, 0x64, 0xea, 0xc5, 0xac, 0x83,
    0x34, 0xd3, 0xeb, 0xc3, 0xc5, 0x81, 0xa0, 0xff, 0xfa, 0x13, 0x63, 0xeb, 0x17, 0x0d, 0xdd, 0x51, 0xb7, 0xf0, 0xda, 0x49, 0xd3, 0x16,
    0x55, 0x26, 0x29, 0xd4, 0x68, 0x9e, 0x2b, 0x16, 0xbe, 0x58, 0x7d, 0x47, 0xa1, 0xfc, 0x8f, 0xf8, 0xb8, 0xd1, 0x7a, 0xd0, 0x31, 0xce,
    0x45, 0xcb, 0x3a, 0x8f, 0x95, 0x16, 0x04, 0x28, 0xaf, 0xd7, 0xfb, 0xca, 0xbb, 0x4b, 0x40, 0x7e};
inline constexpr u64 M1 = 0x165667919E3779F9ULL, M2 = 0x9FB21C651E98DF25ULL;
inline constexpr u32 Q1 = 0x9E3779B1U, Q2 = 0x85EBCA77U, Q3 = 0xC2B2AE3DU;
constexpr u64 Sec(std::size_t o) {
  u64 r = 0;
  for (std::size_t i = 0; i < 8; ++i) r |= static_cast<u64>(kX3[o + i]) << (8 * i);
  return r;
}
constexpr u64 Sec32(std::size_t o) { return Sec(o) & 0xffffffffU; }
inline u64 X3Avalanche(u64 h) {
  h ^= h >> 37;
  h *= M1;
  return h ^ (h >> 32);
}
inline u64 SeedSwap(u64 seed) { return seed ^ (static_cast<u64>(__builtin_bswap32(static_cast<u32>(seed))) << 32); }
template<std::size_t O>
inline u64 Mix16(const char* p, u64 seed) {
  constexpr u64 lo = Sec(O), hi = Sec(O + 8);
  return Fold(Le64(p) ^ (lo + seed), Le64(p + 8) ^ (hi - seed));
}
// The same with an offset known after unrolling.
inline u64 Mix16At(const char* p, std::size_t o, u64 seed) {
  const char* s = reinterpret_cast<const char*>(kX3) + o;
  return Fold(Le64(p) ^ (Le64(s) + seed), Le64(p + 8) ^ (Le64(s + 8) - seed));
}
// Word o of the secret derived from the seed; the seeded secret is an array of 64-bit words, read at any byte offset.
struct Secret {
  char b[192];
  explicit Secret(u64 seed) {
    for (std::size_t i = 0; i < 12; ++i) {
      const u64 lo = Le64(reinterpret_cast<const char*>(kX3) + 16 * i) + seed, hi = Le64(reinterpret_cast<const char*>(kX3) + 16 * i + 8) - seed;
      __builtin_memcpy(b + 16 * i, &lo, 8);
      __builtin_memcpy(b + 16 * i + 8, &hi, 8);
    }
  }
};
inline void Stripe(u64* acc, const char* p, const char* s) {
  for (int i = 0; i < 8; ++i) {
    const u64 v = Le64(p + 8 * i), k = v ^ Le64(s + 8 * i);
    acc[i ^ 1] += v;
    acc[i] += (k & 0xffffffffU) * (k >> 32);
  }
}
inline void Long(u64* acc, const char* p, std::size_t n, const char* s) {
  acc[0] = Q3, acc[1] = P1, acc[2] = P2, acc[3] = P3, acc[4] = P4, acc[5] = Q2, acc[6] = P5, acc[7] = Q1;
  std::size_t pos = 0, in = 0;
  for (; pos + 64 < n; pos += 64) {
    Stripe(acc, p + pos, s + 8 * in);
    if (++in == 16 && pos + 64 < n) {
      in = 0;
      for (int i = 0; i < 8; ++i) acc[i] = (acc[i] ^ (acc[i] >> 47) ^ Le64(s + 128 + 8 * i)) * Q1;
    }
  }
  Stripe(acc, p + n - 64, s + 121);
}
inline u64 MergeAcc(const u64* acc, const char* s, u64 h) {
  for (int i = 0; i < 4; ++i) h += Fold(acc[2 * i] ^ Le64(s + 16 * i), acc[2 * i + 1] ^ Le64(s + 16 * i + 8));
  return X3Avalanche(h);
}
inline u64 Xxh3(const char* p, std::size_t n, u64 seed) {
  if (n == 0) return XAvalanche(seed ^ (Sec(56) ^ Sec(64)));
  if (n <= 3) {
    const u32 c = (static_cast<u32>(Byte(p)) << 16) | (static_cast<u32>(Byte(p + n / 2)) << 24) | static_cast<u32>(Byte(p + n - 1)) |
                  (static_cast<u32>(n) << 8);
    return XAvalanche(((Sec32(0) ^ Sec32(4)) + seed) ^ c);
  }
  if (n <= 8) {
    seed = SeedSwap(seed);
    const u64 in = Le32(p + n - 4) + (static_cast<u64>(Le32(p)) << 32);
    u64 h = in ^ ((Sec(8) ^ Sec(16)) - seed);
    h ^= Rotl(h, 49) ^ Rotl(h, 24);
    h *= M2;
    h ^= (h >> 35) + n;
    h *= M2;
    return h ^ (h >> 28);
  }
  if (n <= 16) {
    const u64 lo = Le64(p) ^ ((Sec(24) ^ Sec(32)) + seed), hi = Le64(p + n - 8) ^ ((Sec(40) ^ Sec(48)) - seed);
    return X3Avalanche(n + __builtin_bswap64(lo) + hi + Fold(lo, hi));
  }
  u64 acc = n * P1;
  if (n <= 128) {
    acc += Mix16<0>(p, seed) + Mix16<16>(p + n - 16, seed);
    if (n > 32) acc += Mix16<32>(p + 16, seed) + Mix16<48>(p + n - 32, seed);
    if (n > 64) acc += Mix16<64>(p + 32, seed) + Mix16<80>(p + n - 48, seed);
    if (n > 96) acc += Mix16<96>(p + 48, seed) + Mix16<112>(p + n - 64, seed);
    return X3Avalanche(acc);
  }
  if (n <= 240) {
    for (int i = 0; i < 8; ++i) acc += Mix16At(p + 16 * i, 16 * i, seed);
    acc = X3Avalanche(acc);
    for (std::size_t i = 8; i < n / 16; ++i) acc += Mix16At(p + 16 * i, 16 * (i - 8) + 3, seed);
    acc += Mix16At(p + n - 16, 136 - 17, seed);
    return X3Avalanche(acc);
  }
  const Secret s(seed);
  u64 a[8];
  Long(a, p, n, s.b);
  return MergeAcc(a, s.b + 11, n * P1);
}
inline void Mix32(u64* acc, const char* a, const char* b, std::size_t o, u64 seed) {
  acc[0] += Mix16At(a, o, seed);
  acc[0] ^= Le64(b) + Le64(b + 8);
  acc[1] += Mix16At(b, o + 16, seed);
  acc[1] ^= Le64(a) + Le64(a + 8);
}
inline void Finish128(u64* acc, std::size_t n, u64 seed, u64* out) {
  const u64 lo = acc[0] + acc[1], hi = acc[0] * P1 + acc[1] * P4 + (n - seed) * P2;
  out[0] = X3Avalanche(lo);
  out[1] = 0 - X3Avalanche(hi);
}
inline void Xxh3_128(const char* p, std::size_t n, u64 seed, u64* out) {
  if (n == 0) {
    out[0] = XAvalanche(seed ^ (Sec(64) ^ Sec(72)));
    out[1] = XAvalanche(seed ^ (Sec(80) ^ Sec(88)));
    return;
  }
  if (n <= 3) {
    const u32 c = (static_cast<u32>(Byte(p)) << 16) | (static_cast<u32>(Byte(p + n / 2)) << 24) | static_cast<u32>(Byte(p + n - 1)) |
                  (static_cast<u32>(n) << 8);
    const u32 sw = __builtin_bswap32(c), d = (sw << 13) | (sw >> 19);
    out[0] = XAvalanche(((Sec32(0) ^ Sec32(4)) + seed) ^ c);
    out[1] = XAvalanche(((Sec32(8) ^ Sec32(12)) - seed) ^ d);
    return;
  }
  if (n <= 8) {
    seed = SeedSwap(seed);
    const u64 in = Le32(p) + (static_cast<u64>(Le32(p + n - 4)) << 32);
    const u128 m = static_cast<u128>(in ^ ((Sec(16) ^ Sec(24)) + seed)) * (P1 + (n << 2));
    u64 lo = static_cast<u64>(m), hi = static_cast<u64>(m >> 64);
    hi += lo << 1;
    lo ^= hi >> 3;
    lo ^= lo >> 35;
    lo *= M2;
    lo ^= lo >> 28;
    out[0] = lo;
    out[1] = X3Avalanche(hi);
    return;
  }
  if (n <= 16) {
    const u64 lo = Le64(p);
    u64 hi = Le64(p + n - 8);
    const u128 m = static_cast<u128>(lo ^ hi ^ ((Sec(32) ^ Sec(40)) - seed)) * P1;
    u64 ml = static_cast<u64>(m), mh = static_cast<u64>(m >> 64);
    ml += static_cast<u64>(n - 1) << 54;
    hi ^= (Sec(48) ^ Sec(56)) + seed;
    mh += hi + (hi & 0xffffffffU) * static_cast<u64>(Q2 - 1);
    ml ^= __builtin_bswap64(mh);
    const u128 h = static_cast<u128>(ml) * P2;
    out[0] = X3Avalanche(static_cast<u64>(h));
    out[1] = X3Avalanche(static_cast<u64>(h >> 64) + mh * P2);
    return;
  }
  u64 acc[2] = {n * P1, 0};
  if (n <= 128) {
    if (n > 96) Mix32(acc, p + 48, p + n - 64, 96, seed);
    if (n > 64) Mix32(acc, p + 32, p + n - 48, 64, seed);
    if (n > 32) Mix32(acc, p + 16, p + n - 32, 32, seed);
    Mix32(acc, p, p + n - 16, 0, seed);
    return Finish128(acc, n, seed, out);
  }
  if (n <= 240) {
    for (int i = 0; i < 4; ++i) Mix32(acc, p + 32 * i, p + 32 * i + 16, 32 * i, seed);
    acc[0] = X3Avalanche(acc[0]);
    acc[1] = X3Avalanche(acc[1]);
    for (std::size_t i = 4; i < n / 32; ++i) Mix32(acc, p + 32 * i, p + 32 * i + 16, 3 + 32 * (i - 4), seed);
    Mix32(acc, p + n - 16, p + n - 32, 136 - 17 - 16, 0 - seed);
    return Finish128(acc, n, seed, out);
  }
  const Secret s(seed);
  u64 a[8];
  Long(a, p, n, s.b);
  out[0] = MergeAcc(a, s.b + 11, n * P1);
  out[1] = MergeAcc(a, s.b + 192 - 64 - 11, ~(n * P2));
}
}  // namespace ref

#define H64(name, expr) \
  VP std::uint64_t vp_spec_h64_##name(const char* p, std::size_t n, std::uint64_t seed) { return expr; }
H64(fnv1a, ref::Fnv1a(p, n, seed))
H64(xxh64, ref::Xxh64(p, n, seed))
H64(rapidhash, ref::Rapid(p, n, seed))
H64(xxh3, ref::Xxh3(p, n, seed))
H64(siphash, (ref::SipHash<2, 4>(p, n, seed, ref::Mix64(seed))))
VP std::uint64_t vp_spec_h64_murmur3(const char* p, std::size_t n, std::uint64_t seed) {
  std::uint64_t r[2];
  ref::Murmur3(p, n, seed, r);
  return r[0];
}
VP void vp_spec_h128_murmur3(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) { ref::Murmur3(p, n, seed, out); }
VP void vp_spec_h128_xxh3(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) { ref::Xxh3_128(p, n, seed, out); }
VP std::uint64_t vp_spec_sip24(const char* p, std::size_t n, std::uint64_t k0, std::uint64_t k1) { return ref::SipHash<2, 4>(p, n, k0, k1); }
VP std::uint64_t vp_spec_sip13(const char* p, std::size_t n, std::uint64_t k0, std::uint64_t k1) { return ref::SipHash<1, 3>(p, n, k0, k1); }

// The documented completions of Hasher and MangledHasher.
template<typename A>
concept Has128 = requires(std::string_view s) { A::GetHash128(s, std::uint64_t{0}); };
template<typename A>
inline void Complete128(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {
  if constexpr (Has128<A>) {
    const h::Hash128 r = A::GetHash128(std::string_view(p, n), seed);
    out[0] = r.h1;
    out[1] = r.h2;
  } else {
    const std::size_t k = n > 8 ? 8 : n;
    const std::uint64_t head = ref::Tail(p, k);
    out[0] = A::GetHash64(std::string_view(p, n), seed);
    out[1] = A::GetHash64(std::string_view(p + k, n - k), seed ^ 0x9E3779B97F4A7C15ULL ^ head);
  }
}
#define X(name, A)                                                                                                              \
  VP std::uint32_t vp_spec_hasher32_##name(const char* p, std::size_t n, std::uint64_t seed) {                                  \
    const std::uint64_t v = A::GetHash64(std::string_view(p, n), seed);                                                         \
    return static_cast<std::uint32_t>(v) ^ static_cast<std::uint32_t>(v >> 32);                                                 \
  }                                                                                                                             \
  VP void vp_spec_hasher128_##name(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {                      \
    Complete128<A>(p, n, seed, out);                                                                                            \
  }                                                                                                                             \
  VP std::uint64_t vp_spec_mangled_##name(const char* p, std::size_t n, std::uint64_t seed) {                                   \
    return A::GetHash64(std::string_view(p, n), seed) ^ h::kMangleConstant;                                                     \
  }
VP_HASH64(X)
#undef X

struct Only128 {
  static constexpr h::Hash128 GetHash128(std::string_view s, std::uint64_t seed) noexcept { return h::murmur3::GetHash128(s, seed); }
};
struct With32 {
  static constexpr std::uint64_t GetHash64(std::string_view s, std::uint64_t seed) noexcept { return h::fnv1a::GetHash64(s, seed); }
  static constexpr std::uint32_t GetHash32(std::string_view s, std::uint64_t seed) noexcept {
    return static_cast<std::uint32_t>(h::xxh64::GetHash64(s, seed));
  }
};
VP std::uint64_t vp_c_fold128(const char* p, std::size_t n, std::uint64_t seed) {
  return h::Hasher<Only128>::GetHash64(std::string_view(p, n), seed);
}
VP std::uint64_t vp_spec_c_fold128(const char* p, std::size_t n, std::uint64_t seed) {
  const h::Hash128 r = h::murmur3::GetHash128(std::string_view(p, n), seed);
  return ref::Mix64(r.h1 ^ (r.h2 + 0x9e3779b97f4a7c15ULL));
}
VP std::uint32_t vp_c_native32(const char* p, std::size_t n, std::uint64_t seed) {
  return h::Hasher<With32>::GetHash32(std::string_view(p, n), seed);
}
VP std::uint32_t vp_spec_c_native32(const char* p, std::size_t n, std::uint64_t seed) {
  return static_cast<std::uint32_t>(h::xxh64::GetHash64(std::string_view(p, n), seed));
}
VP std::uint64_t vp_c_functor(const char* p, std::size_t n, std::uint64_t) { return h::DefaultHasher()(std::string_view(p, n)); }
VP std::uint64_t vp_spec_c_functor(const char* p, std::size_t n, std::uint64_t) { return h::mumbo::Algorithm::GetHash64(std::string_view(p, n), 5381); }
VP std::uint64_t vp_c_mfunctor(const char* p, std::size_t n, std::uint64_t) { return h::DefaultMangledHasher()(std::string_view(p, n)); }
VP std::uint64_t vp_spec_c_mfunctor(const char* p, std::size_t n, std::uint64_t) {
  return h::mumbo::Algorithm::GetHash64(std::string_view(p, n), 5381) ^ h::kMangleConstant;
}
VP std::uint64_t vp_c_gethash(const char* p, std::size_t n, std::uint64_t) { return h::GetHash(std::string_view(p, n)); }
VP std::uint64_t vp_spec_c_gethash(const char* p, std::size_t n, std::uint64_t) {
  return h::mumbo::Algorithm::GetHash64(std::string_view(p, n), 5381) ^ h::kMangleConstant;
}
VP std::uint64_t vp_c_free64(const char* p, std::size_t n, std::uint64_t seed) { return h::GetHash64<h::xxh64::Algorithm>(std::string_view(p, n), seed); }
VP std::uint64_t vp_spec_c_free64(const char* p, std::size_t n, std::uint64_t seed) { return h::xxh64::Algorithm::GetHash64(std::string_view(p, n), seed); }
VP void vp_c_free128(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {
  const h::Hash128 r = h::GetHash128(std::string_view(p, n), seed);
  out[0] = r.h1;
  out[1] = r.h2;
}
VP void vp_spec_c_free128(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {
  const h::Hash128 r = h::jumbo::Algorithm::GetHash128(std::string_view(p, n), seed);
  out[0] = r.h1;
  out[1] = r.h2;
}
VP std::uint32_t vp_c_free32(const char* p, std::size_t n, std::uint64_t seed) { return h::GetHash32(std::string_view(p, n), seed); }
VP std::uint32_t vp_spec_c_free32(const char* p, std::size_t n, std::uint64_t seed) {
  const std::uint64_t v = h::mumbo::Algorithm::GetHash64(std::string_view(p, n), seed);
  return static_cast<std::uint32_t>(v ^ (v >> 32));
}
VP std::uint64_t vp_c_comb(const char*, std::size_t, std::uint64_t a, std::uint64_t b) { return h::CombineHashes(a, b); }
VP std::uint64_t vp_spec_c_comb(const char*, std::size_t, std::uint64_t a, std::uint64_t b) {
  return ref::Mix64(a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2)));
}
VP std::uint64_t vp_c_to64(const char*, std::size_t, std::uint64_t a, std::uint64_t b) { return h::Hash128To64({.h1 = a, .h2 = b}); }
VP std::uint64_t vp_spec_c_to64(const char*, std::size_t, std::uint64_t a, std::uint64_t b) { return ref::Mix64(a ^ (b + 0x9e3779b97f4a7c15ULL)); }
VP std::uint32_t vp_c_to32(const char*, std::size_t, std::uint64_t a) { return h::Hash64To32(a); }
VP std::uint32_t vp_spec_c_to32(const char*, std::size_t, std::uint64_t a) { return static_cast<std::uint32_t>(a) ^ static_cast<std::uint32_t>(a >> 32); }
