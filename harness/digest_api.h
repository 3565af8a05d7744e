// Enumerates every public streaming digest for the IR analyses (parse/analysis only; never run).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <string_view>
#include "mbo/digest/digest.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_mangle.h"

namespace d = mbo::digest;
namespace h = mbo::hash;

// X(name, Algorithm)
#define VP_DIGESTS(X)                                \
  X(md5, d::md5::Algorithm)                          \
  X(sha1, d::sha1::Algorithm)                        \
  X(sha224, d::sha224::Algorithm)                    \
  X(sha256, d::sha256::Algorithm)                    \
  X(sha384, d::sha384::Algorithm)                    \
  X(sha512, d::sha512::Algorithm)                    \
  X(sha512_224, d::sha512_224::Algorithm)            \
  X(sha512_256, d::sha512_256::Algorithm)            \
  X(sha3_224, d::sha3_224::Algorithm)                \
  X(sha3_256, d::sha3_256::Algorithm)                \
  X(sha3_384, d::sha3_384::Algorithm)                \
  X(sha3_512, d::sha3_512::Algorithm)                \
  X(shake128, d::shake128::Algorithm<32>)            \
  X(shake256, d::shake256::Algorithm<64>)            \
  X(blake2b, d::blake2b::Algorithm)                  \
  X(blake2b_256, d::blake2b_256::Algorithm)          \
  X(blake3, d::blake3::Algorithm)

// X(name, Algorithm): 64-bit hashes
#define VP_HASH64(X)                  \
  X(mumbo, h::mumbo::Algorithm)       \
  X(jumbo, h::jumbo::Algorithm)       \
  X(murmur3, h::murmur3::Algorithm)   \
  X(siphash, h::siphash::Algorithm)   \
  X(fnv1a, h::fnv1a::Algorithm)       \
  X(dumbo, h::dumbo::Algorithm)       \
  X(fambo, h::fambo::Algorithm)       \
  X(rapidhash, h::rapidhash::Algorithm) \
  X(xxh3, h::xxh3::Algorithm)         \
  X(xxh64, h::xxh64::Algorithm)

// X(name, Algorithm): native 128-bit hashes
#define VP_HASH128(X)                 \
  X(mumbo, h::mumbo::Algorithm)       \
  X(jumbo, h::jumbo::Algorithm)       \
  X(murmur3, h::murmur3::Algorithm)   \
  X(xxh3, h::xxh3::Algorithm)

// X(name, Algorithm): streaming hashes
#define VP_HASHSTREAM(X)              \
  X(mumbo, h::mumbo::Algorithm)       \
  X(jumbo, h::jumbo::Algorithm)       \
  X(siphash, h::siphash::Algorithm)   \
  X(xxh64, h::xxh64::Algorithm)
