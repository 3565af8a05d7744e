// One extern "C" entry per public digest/hash operation. Compiled to LLVM IR and analysed; never executed.
#include "digest_api.h"

#define VP extern "C" __attribute__((used))

// ---- streaming digests
#define X(name, A)                                                                                        \
  VP A::StreamState vp_layout_dig_##name = A::StreamInit();                                               \
  VP void vp_dig_init_##name(A::StreamState* s) { *s = A::StreamInit(); }                                 \
  VP void vp_dig_update_##name(A::StreamState* s, const char* p, std::size_t n) {                         \
    A::StreamUpdate(*s, std::string_view(p, n));                                                          \
  }                                                                                                       \
  VP void vp_dig_final_##name(A::StreamState* s, unsigned char* out) {                              \
    const auto r = A::StreamFinalize(*s);                                                                 \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }                                                                                                       \
  VP void vp_dig_oneshot_##name(const char* p, std::size_t n, unsigned char* out) {                       \
    const auto r = A::Digest(std::string_view(p, n));                                                     \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }                                                                                                       \
  VP void vp_dig_sfinal_##name(const d::Streamer<A>* s, unsigned char* out) {                             \
    const auto r = s->Finalize();                                                                         \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }                                                                                                       \
  VP void vp_dig_supdate_##name(d::Streamer<A>* s, const char* p, std::size_t n) {                        \
    s->Update(std::string_view(p, n));                                                                    \
  }                                                                                                       \
  VP std::size_t vp_size_dig_##name = A::kDigestSize;                                                     \
  VP std::size_t vp_block_dig_##name = A::kBlockSize;
VP_DIGESTS(X)
#undef X

// ---- HMAC
#define X(name, A)                                                                                        \
  VP d::Hmac<A>::StreamState vp_layout_hmac_##name = d::Hmac<A>::StreamInit("");                          \
  VP void vp_hmac_init_##name(d::Hmac<A>::StreamState* s, const char* p, std::size_t n) {                 \
    *s = d::Hmac<A>::StreamInit(std::string_view(p, n));                                                  \
  }                                                                                                       \
  VP void vp_hmac_update_##name(d::Hmac<A>::StreamState* s, const char* p, std::size_t n) {               \
    d::Hmac<A>::StreamUpdate(*s, std::string_view(p, n));                                                 \
  }                                                                                                       \
  VP void vp_hmac_final_##name(d::Hmac<A>::StreamState* s, unsigned char* out) {                    \
    const auto r = d::Hmac<A>::StreamFinalize(*s);                                                        \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }                                                                                                       \
  VP void vp_hmac_sfinal_##name(const d::HmacStreamer<A>* s, unsigned char* out) {                        \
    const auto r = s->Finalize();                                                                         \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }                                                                                                       \
  VP void vp_hmac_oneshot_##name(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out) { \
    const auto r = d::Hmac<A>::Digest(std::string_view(k, kn), std::string_view(p, n));                   \
    std::memcpy(out, r.data(), r.size());                                                                 \
  }
VP_DIGESTS(X)
#undef X

// ---- keyed / XOF / KDF modes
template<typename R>
static inline void Out(unsigned char* out, const R& r) {
  std::memcpy(out, r.data(), r.size());
}
VP void vp_mode_blake2b_keyed(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::blake2b::Algorithm::DigestKeyed(std::string_view(k, kn), std::string_view(p, n)));
}
VP void vp_mode_blake2b_256_keyed(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::blake2b_256::Algorithm::DigestKeyed(std::string_view(k, kn), std::string_view(p, n)));
}
VP void vp_mode_blake2b_keyinit(d::blake2b::Algorithm::StreamState* s, const char* k, std::size_t kn) {
  *s = d::blake2b::Algorithm::StreamInitKeyed(std::string_view(k, kn));
}
VP void vp_mode_blake3_keyed(const char* k, std::size_t kn, const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::blake3::DigestKeyed(std::string_view(k, kn), std::string_view(p, n)));
}
VP void vp_mode_blake3_keyinit(d::blake3::Algorithm::StreamState* s, const char* k, std::size_t kn) {
  *s = d::blake3::Algorithm::StreamInitKeyed(std::string_view(k, kn));
}
VP void vp_mode_blake3_xof(const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::blake3::DigestXof<131>(std::string_view(p, n)));
}
VP void vp_mode_blake3_derive(const char* c, std::size_t cn, const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::blake3::DeriveKey<32>(std::string_view(c, cn), std::string_view(p, n)));
}
VP void vp_mode_shake128_xof(const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::shake128::Digest<400>(std::string_view(p, n)));
}
VP void vp_mode_shake256_xof(const char* p, std::size_t n, unsigned char* out) {
  Out(out, d::shake256::Digest<300>(std::string_view(p, n)));
}

// ---- hashes
#define X(name, A)                                                                                        \
  VP std::uint64_t vp_h64_##name(const char* p, std::size_t n, std::uint64_t seed) {                      \
    return A::GetHash64(std::string_view(p, n), seed);                                                    \
  }                                                                                                       \
  VP std::uint64_t vp_hasher64_##name(const char* p, std::size_t n, std::uint64_t seed) {                 \
    return h::Hasher<A>::GetHash64(std::string_view(p, n), seed);                                         \
  }                                                                                                       \
  VP void vp_hasher128_##name(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {     \
    const h::Hash128 r = h::Hasher<A>::GetHash128(std::string_view(p, n), seed);                          \
    out[0] = r.h1;                                                                                        \
    out[1] = r.h2;                                                                                        \
  }                                                                                                       \
  VP std::uint32_t vp_hasher32_##name(const char* p, std::size_t n, std::uint64_t seed) {                 \
    return h::Hasher<A>::GetHash32(std::string_view(p, n), seed);                                         \
  }                                                                                                       \
  VP std::uint64_t vp_mangled_##name(const char* p, std::size_t n, std::uint64_t seed) {                  \
    return h::MangledHasher<A>::GetHash(std::string_view(p, n), seed);                                    \
  }
VP_HASH64(X)
#undef X

#define X(name, A)                                                                                        \
  VP void vp_h128_##name(const char* p, std::size_t n, std::uint64_t seed, std::uint64_t* out) {          \
    const h::Hash128 r = A::GetHash128(std::string_view(p, n), seed);                                     \
    out[0] = r.h1;                                                                                        \
    out[1] = r.h2;                                                                                        \
  }
VP_HASH128(X)
#undef X

#define X(name, L, C, S)                                                                                  \
  VP std::uint64_t vp_h64_tembo_##name(const char* p, std::size_t n, std::uint64_t seed) {                \
    return h::tembo::Algorithm<L, C, S>::GetHash64(std::string_view(p, n), seed);                         \
  }
X(2_3, 2, 3, false)
X(3_5, 3, 5, false)
X(4_8, 4, 8, true)
X(7_9, 7, 9, false)
X(8_8, 8, 8, false)
X(16_17, 16, 16, true)
#undef X

VP std::uint64_t vp_sip24(const char* p, std::size_t n, std::uint64_t k0, std::uint64_t k1) {
  return h::siphash::GetHash64(std::string_view(p, n), k0, k1);
}
VP std::uint64_t vp_sip13(const char* p, std::size_t n, std::uint64_t k0, std::uint64_t k1) {
  return h::siphash::GetHash64Sip13(std::string_view(p, n), k0, k1);
}
VP std::uint64_t vp_combine(std::uint64_t a, std::uint64_t b) { return h::CombineHashes(a, b); }
VP std::uint64_t vp_mangle(std::uint64_t a) { return h::HashMangle(a); }
VP std::uint64_t vp_gethash(const char* p, std::size_t n) { return h::GetHash(std::string_view(p, n)); }
VP std::uint64_t vp_128to64(std::uint64_t a, std::uint64_t b) { return h::Hash128To64({.h1 = a, .h2 = b}); }
VP std::uint32_t vp_64to32(std::uint64_t a) { return h::Hash64To32(a); }

// ---- streaming hashes
#define X(name, A)                                                                                        \
  VP A::StreamState vp_layout_hs_##name = A::StreamInit(0);                                               \
  VP void vp_hs_init_##name(A::StreamState* s, std::uint64_t seed) { *s = A::StreamInit(seed); }          \
  VP void vp_hs_update_##name(A::StreamState* s, const char* p, std::size_t n) {                          \
    A::StreamUpdate(*s, std::string_view(p, n));                                                          \
  }                                                                                                       \
  VP std::uint64_t vp_hs_final_##name(A::StreamState* s) { return A::StreamFinalize(*s); }          \
  VP std::uint64_t vp_hs_sfinal_##name(const h::Streamer<A>* s) { return s->Finalize(); }                 \
  VP void vp_hs_supdate_##name(h::Streamer<A>* s, const char* p, std::size_t n) {                         \
    s->Update(std::string_view(p, n));                                                                    \
  }
VP_HASHSTREAM(X)
#undef X

// ---- text forms
VP void vp_hex32(std::string* out, const std::array<std::uint8_t, 32>* in) { new (out) std::string(d::ToHexString(*in)); }
