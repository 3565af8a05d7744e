// SPDX-FileCopyrightText: Copyright (c) The helly25 authors (helly25.com)
// SPDX-License-Identifier: Apache-2.0
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//      http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

#ifndef MBO_HASH_HASH_MANGLE_SEED_GEN_H_
#define MBO_HASH_HASH_MANGLE_SEED_GEN_H_

// IWYU pragma: private, include "mbo/hash/hash_mangle.h"
// IWYU pragma: friend "mbo/hash/hash_mangle.h"

#include <cstdint>

namespace mbo::hash {

// The build-selected constant XORed into `GetHash` values (see `hash_mangle.h`).
//
// Selected by folding the module's own version (from MODULE.bazel via
// `native.module_version()` - every release rotates the constant by
// construction) with the custom Bazel flags
// `--//mbo/hash:mangle_seed` (any printable ASCII string, folded to a bucket
// inside the generation rule, see `internal/hash_mangle_seed.bzl`) and
// `--//mbo/hash:mangle_seed_buckets` (`0` disables the mangle - constant 0,
// `GetHash == GetHash64`; `1` pins one stable nonzero constant across
// releases; `N` bounds variation to `N` constants so build caches converge).
// When the library is built as a dependency (e.g. as `helly25_mbo`), the
// flags become `--@helly25_mbo//mbo/hash:mangle_seed` and
// `--@helly25_mbo//mbo/hash:mangle_seed_buckets`.
//
// This header is generated per build and is not committed, so it always matches
// the version and flags it was built with; `hash_mangle.h` requires it (a
// missing header is a build error, never a silent fallback).
inline constexpr uint64_t kMangleConstant = 0x79EC7046370E0C65ULL;

}  // namespace mbo::hash

#endif  // MBO_HASH_HASH_MANGLE_SEED_GEN_H_
