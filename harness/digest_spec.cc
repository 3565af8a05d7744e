// The published framing of every digest (padding, length encoding, counters, flags, tree, squeezing), written from the standards.
// The block functions are declared only: the analysis matches them with the block functions it finds in the library.
// Analysed, never executed.
#include "digest_api.cc"

extern "C" {
void vp_spec_md5(std::uint32_t* h, const unsigned char* block);
void vp_spec_sha1(std::uint32_t* h, const unsigned char* block);
void vp_spec_sha256(std::uint32_t* h, const unsigned char* block);
void vp_spec_sha512(std::uint64_t* h, const unsigned char* block);
void vp_spec_blake2b(std::uint64_t* h, const unsigned char* block, std::uint64_t t, bool last);
void vp_spec_blake3(std::uint32_t* out, const std::uint32_t* cv, const unsigned char* block, std::uint64_t counter, std::uint32_t len,
                    std::uint32_t flags);
void vp_spec_keccak(std::uint64_t* lanes);
}

namespace spec {
using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// Merkle-Damgard strengthening: RFC 1321 3.1-3.2, FIPS 180-4 5.1.
template<std::size_t B, std::size_t L, bool kBig, typename W, typename F>
static inline void Md(W* h, const u8* p, std::size_t n, u64 before, F f) {
  std::size_t done = 0;
  while (n - done >= B) {
    f(h, p + done);
    done += B;
  }
  const std::size_t r = n - done;
  u8 b[B];
  std::memset(b, 0, B);
  std::memcpy(b, p + done, r);
  b[r] = 0x80;
  if (r >= B - L) {
    f(h, b);
    std::memset(b, 0, B);
  }
  const u64 bits = (before + static_cast<u64>(n)) * 8;
  for (int i = 0; i < 8; ++i) {
    if (kBig) b[B - 1 - i] = static_cast<u8>(bits >> (8 * i));
    else b[B - 8 + i] = static_cast<u8>(bits >> (8 * i));
  }
  if (L == 16) b[B - 9] = static_cast<u8>((before + static_cast<u64>(n)) >> 61);
  f(h, b);
}
template<bool kBig, typename W>
static inline void Emit(const W* h, std::size_t n, u8* out) {
  for (std::size_t i = 0; i < n; ++i) {
    const std::size_t k = i % sizeof(W);
    out[i] = static_cast<u8>(h[i / sizeof(W)] >> (8 * (kBig ? sizeof(W) - 1 - k : k)));
  }
}
static inline void Sha2_32(const u32 (&iv)[8], const char* p, std::size_t n, u8* out, std::size_t dn) {
  u32 h[8];
  std::memcpy(h, iv, 32);
  Md<64, 8, true>(h, (const u8*)p, n, 0, [](u32* s, const u8* b) { vp_spec_sha256(s, b); });
  Emit<true>(h, dn, out);
}
static inline void Sha2_64(const u64 (&iv)[8], const char* p, std::size_t n, u8* out, std::size_t dn) {
  u64 h[8];
  std::memcpy(h, iv, 64);
  Md<128, 16, true>(h, (const u8*)p, n, 0, [](u64* s, const u8* b) { vp_spec_sha512(s, b); });
  Emit<true>(h, dn, out);
}
static inline void Blake2bTail(u64* h, const char* p, std::size_t n, u64 t, u8* out, std::size_t dn) {
  u8 b[128];
  std::size_t done = 0;
  while (n - done > 128) {
    t += 128;
    vp_spec_blake2b(h, (const u8*)p + done, t, false);
    done += 128;
  }
  const std::size_t r = n - done;
  std::memset(b, 0, 128);
  std::memcpy(b, p + done, r);
  vp_spec_blake2b(h, b, t + r, true);
  Emit<false>(h, dn, out);
}
// RFC 7693 3.3; an optional key of kn <= 64 bytes.
static inline void Blake2b(const char* key, std::size_t kn, const char* p, std::size_t n, u8* out, std::size_t dn) {
  u64 h[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
              0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};
  h[0] ^= 0x01010000 ^ (static_cast<u64>(kn) << 8) ^ dn;
  u8 b[128];
  u64 t = 0;
  if (kn > 0) {
    std::memset(b, 0, 128);
    for (std::size_t i = 0; i < kn; ++i) b[i] = key[i];
    if (n > 0) {
      t = 128;
      vp_spec_blake2b(h, b, t, false);
    } else {
      vp_spec_blake2b(h, b, 128, true);
      Emit<false>(h, dn, out);
      return;
    }
  }
  Blake2bTail(h, p, n, t, out, dn);
}
// FIPS 202 sponge.
template<std::size_t R>
static inline void SpongeTail(u64* a, const char* p, std::size_t n, u8 dom, u8* out, std::size_t dn) {
  std::size_t at = 0;
  for (std::size_t i = 0; i < n; ++i) {
    a[at / 8] ^= static_cast<u64>((u8)p[i]) << (8 * (at % 8));
    if (++at == R) {
      vp_spec_keccak(a);
      at = 0;
    }
  }
  a[at / 8] ^= static_cast<u64>(dom) << (8 * (at % 8));
  a[(R - 1) / 8] ^= static_cast<u64>(0x80) << (8 * ((R - 1) % 8));
  vp_spec_keccak(a);
  for (std::size_t i = 0; i < dn; ++i) {
    if (i && i % R == 0) vp_spec_keccak(a);
    out[i] = static_cast<u8>(a[(i % R) / 8] >> (8 * ((i % R) % 8)));
  }
}
template<std::size_t R>
static inline void Sponge(const char* p, std::size_t n, u8 dom, u8* out, std::size_t dn) {
  u64 a[25];
  std::memset(a, 0, sizeof(a));
  SpongeTail<R>(a, p, n, dom, out, dn);
}
static constexpr u32 kIv[8] = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
// BLAKE3 tree hashing: chunks of 1024 bytes, then adjacent pairs level by level (an odd last node moves up unchanged).
static inline void Blake3(const u32* key, u32 mode, const char* p, std::size_t n, u8* out, std::size_t dn) {
  u32 cvs[16][8];
  u32 in[8];
  u8 blk[64];
  u32 w[16];
  std::size_t chunks = n == 0 ? 1 : (n + 1023) / 1024;
  u32 len = 0, flags = 0;
  u64 ctr = 0;
  for (std::size_t c = 0; c < chunks; ++c) {
    const std::size_t clen = c + 1 < chunks ? 1024 : n - 1024 * c;
    const std::size_t blocks = clen == 0 ? 1 : (clen + 63) / 64;
    std::memcpy(in, key, 32);
    for (std::size_t b = 0; b < blocks; ++b) {
      const std::size_t blen = b + 1 < blocks ? 64 : clen - 64 * b;
      std::memset(blk, 0, 64);
      for (std::size_t i = 0; i < blen; ++i) blk[i] = (u8)p[1024 * c + 64 * b + i];
      len = (u32)blen;
      ctr = c;
      flags = mode | (b == 0 ? 1u : 0u) | (b + 1 == blocks ? 2u : 0u);
      if (b + 1 == blocks && chunks == 1) break;
      vp_spec_blake3(w, in, blk, ctr, len, flags);
      std::memcpy(in, w, 32);
    }
    if (chunks > 1) std::memcpy(cvs[c], in, 32);
  }
  while (chunks > 1) {
    std::size_t m = 0;
    for (std::size_t i = 0; i < chunks; i += 2) {
      if (i + 1 == chunks) {
        std::memcpy(cvs[m], cvs[i], 32);
      } else {
        std::memcpy(in, key, 32);
        std::memcpy(blk, cvs[i], 32);
        std::memcpy(blk + 32, cvs[i + 1], 32);
        ctr = 0;
        len = 64;
        flags = mode | 4u;
        if (chunks > 2) {
          vp_spec_blake3(w, in, blk, ctr, len, flags);
          std::memcpy(cvs[m], w, 32);
        }
      }
      ++m;
    }
    chunks = m;
  }
  for (std::size_t i = 0; i < dn; i += 64) {
    vp_spec_blake3(w, in, blk, i / 64, len, flags | 8u);
    Emit<false>(w, dn - i < 64 ? dn - i : 64, out + i);
  }
}
static inline void Key32(const char* k, std::size_t kn, u32* w) {
  u8 b[32];
  std::memset(b, 0, 32);
  for (std::size_t i = 0; i < kn && i < 32; ++i) b[i] = (u8)k[i];
  for (int i = 0; i < 8; ++i) w[i] = b[4 * i] | (u32)b[4 * i + 1] << 8 | (u32)b[4 * i + 2] << 16 | (u32)b[4 * i + 3] << 24;
}
// RFC 2104 over the library's own digest.
template<typename A>
static inline void HmacOf(const char* k, std::size_t kn, const char* p, std::size_t n, u8* out) {
  constexpr std::size_t B = A::kBlockSize, D = A::kDigestSize;
  char k0[B], pad[B];
  std::memset(k0, 0, B);
  if (kn > B) {
    const auto r = A::Digest(std::string_view(k, kn));
    std::memcpy(k0, r.data(), D);
  } else {
    for (std::size_t i = 0; i < kn; ++i) k0[i] = k[i];
  }
  for (std::size_t i = 0; i < B; ++i) pad[i] = (char)((u8)k0[i] ^ 0x36);
  auto s = A::StreamInit();
  A::StreamUpdate(s, std::string_view(pad, B));
  A::StreamUpdate(s, std::string_view(p, n));
  const auto in = A::StreamFinalize(s);
  char ib[D];
  std::memcpy(ib, in.data(), D);
  for (std::size_t i = 0; i < B; ++i) pad[i] = (char)((u8)k0[i] ^ 0x5c);
  auto o = A::StreamInit();
  A::StreamUpdate(o, std::string_view(pad, B));
  A::StreamUpdate(o, std::string_view(ib, D));
  const auto r = A::StreamFinalize(o);
  std::memcpy(out, r.data(), D);
}
}  // namespace spec

#define SPEC(name) VP void vp_spec_dig_##name(const char* p, std::size_t n, unsigned char* out)
SPEC(md5) {
  std::uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  spec::Md<64, 8, false>(h, (const unsigned char*)p, n, 0, [](std::uint32_t* s, const unsigned char* b) { vp_spec_md5(s, b); });
  spec::Emit<false>(h, 16, out);
}
SPEC(sha1) {
  std::uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  spec::Md<64, 8, true>(h, (const unsigned char*)p, n, 0, [](std::uint32_t* s, const unsigned char* b) { vp_spec_sha1(s, b); });
  spec::Emit<true>(h, 20, out);
}
SPEC(sha224) {
  spec::Sha2_32({0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4}, p, n, out, 28);
}
SPEC(sha256) {
  spec::Sha2_32({0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}, p, n, out, 32);
}
SPEC(sha384) {
  spec::Sha2_64({0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511,
                 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4}, p, n, out, 48);
}
SPEC(sha512) {
  spec::Sha2_64({0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
                 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}, p, n, out, 64);
}
SPEC(sha512_224) {
  spec::Sha2_64({0x8C3D37C819544DA2, 0x73E1996689DCD4D6, 0x1DFAB7AE32FF9C82, 0x679DD514582F9FCF, 0x0F6D2B697BD44DA8, 0x77E36F7304C48942,
                 0x3F9D85A86A1D36C8, 0x1112E6AD91D692A1}, p, n, out, 28);
}
SPEC(sha512_256) {
  spec::Sha2_64({0x22312194FC2BF72C, 0x9F555FA3C84C64C2, 0x2393B86B6F53B151, 0x963877195940EABD, 0x96283EE2A88EFFE3, 0xBE5E1E2553863992,
                 0x2B0199FC2C85B8AA, 0x0EB72DDC81C52CA2}, p, n, out, 32);
}
SPEC(sha3_224) { spec::Sponge<144>(p, n, 0x06, out, 28); }
SPEC(sha3_256) { spec::Sponge<136>(p, n, 0x06, out, 32); }
SPEC(sha3_384) { spec::Sponge<104>(p, n, 0x06, out, 48); }
SPEC(sha3_512) { spec::Sponge<72>(p, n, 0x06, out, 64); }
SPEC(shake128) { spec::Sponge<168>(p, n, 0x1f, out, 32); }
SPEC(shake256) { spec::Sponge<136>(p, n, 0x1f, out, 64); }
SPEC(blake2b) { spec::Blake2b(nullptr, 0, p, n, out, 64); }
SPEC(blake2b_256) { spec::Blake2b(nullptr, 0, p, n, out, 32); }
SPEC(blake3) { spec::Blake3(spec::kIv, 0, p, n, out, 32); }

#define SPECMODE(name) \
  VP void vp_spec_mode_##name(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out)
SPECMODE(blake2b_keyed) { spec::Blake2b(k, kn, p, n, out, 64); }
SPECMODE(blake2b_256_keyed) { spec::Blake2b(k, kn, p, n, out, 32); }
SPECMODE(blake3_keyed) {
  std::uint32_t w[8];
  spec::Key32(k, kn, w);
  spec::Blake3(w, 16, p, n, out, 32);
}
SPECMODE(blake3_derive) {
  unsigned char ck[32];
  spec::Blake3(spec::kIv, 32, k, kn, ck, 32);
  std::uint32_t w[8];
  spec::Key32((const char*)ck, 32, w);
  spec::Blake3(w, 64, p, n, out, 32);
}
VP void vp_spec_xof_blake3(const char* p, std::size_t n, unsigned char* out) { spec::Blake3(spec::kIv, 0, p, n, out, 131); }
VP void vp_spec_xof_shake128(const char* p, std::size_t n, unsigned char* out) { spec::Sponge<168>(p, n, 0x1f, out, 400); }
VP void vp_spec_xof_shake256(const char* p, std::size_t n, unsigned char* out) { spec::Sponge<136>(p, n, 0x1f, out, 300); }

#define X(name, A)                                                                                                     \
  VP void vp_spec_hmac_##name(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out) {        \
    spec::HmacOf<A>(k, kn, p, n, out);                                                                                 \
  }
VP_DIGESTS(X)
#undef X

// The rest of the computation after `before` bytes whose chaining value is h.
#define TAIL(name, W) VP void vp_spec_tail_##name(W* h, const char* p, std::size_t n, std::uint64_t before, unsigned char* out)
#define MDTAIL(name, W, B, L, big, f, dn)                                                                                     \
  TAIL(name, W) {                                                                                                             \
    spec::Md<B, L, big>(h, (const unsigned char*)p, n, before, [](W* s, const unsigned char* b) { f(s, b); });                \
    spec::Emit<big>(h, dn, out);                                                                                              \
  }
MDTAIL(md5, std::uint32_t, 64, 8, false, vp_spec_md5, 16)
MDTAIL(sha1, std::uint32_t, 64, 8, true, vp_spec_sha1, 20)
MDTAIL(sha224, std::uint32_t, 64, 8, true, vp_spec_sha256, 28)
MDTAIL(sha256, std::uint32_t, 64, 8, true, vp_spec_sha256, 32)
MDTAIL(sha384, std::uint64_t, 128, 16, true, vp_spec_sha512, 48)
MDTAIL(sha512, std::uint64_t, 128, 16, true, vp_spec_sha512, 64)
MDTAIL(sha512_224, std::uint64_t, 128, 16, true, vp_spec_sha512, 28)
MDTAIL(sha512_256, std::uint64_t, 128, 16, true, vp_spec_sha512, 32)
TAIL(sha3_224, std::uint64_t) { spec::SpongeTail<144>(h, p, n, 0x06, out, 28); }
TAIL(sha3_256, std::uint64_t) { spec::SpongeTail<136>(h, p, n, 0x06, out, 32); }
TAIL(sha3_384, std::uint64_t) { spec::SpongeTail<104>(h, p, n, 0x06, out, 48); }
TAIL(sha3_512, std::uint64_t) { spec::SpongeTail<72>(h, p, n, 0x06, out, 64); }
TAIL(shake128, std::uint64_t) { spec::SpongeTail<168>(h, p, n, 0x1f, out, 32); }
TAIL(shake256, std::uint64_t) { spec::SpongeTail<136>(h, p, n, 0x1f, out, 64); }
TAIL(blake2b, std::uint64_t) { spec::Blake2bTail(h, p, n, before, out, 64); }
TAIL(blake2b_256, std::uint64_t) { spec::Blake2bTail(h, p, n, before, out, 32); }
