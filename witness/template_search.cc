// Type-level witness: every search over every sub-range of [0, 6[ with every predicate on it, and every selection of up to six cases,
// against the definitions in the headers' documentation. Compiled, never run; a static_assert names the first combination that differs.
#include <array>
#include <cstddef>
#include <type_traits>
#include <utility>

#include "mbo/types/cases.h"
#include "mbo/types/template_search.h"

namespace vp {
constexpr std::size_t kN = 6;
constexpr std::size_t kOff = 1000;  // a value no search can produce by itself
constexpr std::size_t kSame = kOff + 1;

template<unsigned Mask>
struct Bits {
  template<std::size_t I>
  struct P : std::bool_constant<I < 32 && ((Mask >> (I % 32)) & 1U) != 0> {};
};
constexpr bool At(unsigned mask, std::size_t i) { return ((mask >> i) & 1U) != 0; }

constexpr std::size_t First(unsigned m, std::size_t b, std::size_t e, std::size_t nf) {
  for (std::size_t i = b; i < e; ++i)
    if (At(m, i)) return i;
  return nf;
}
constexpr std::size_t Last(unsigned m, std::size_t b, std::size_t e, std::size_t nf) {
  for (std::size_t i = e; i > b; --i)
    if (At(m, i - 1)) return i - 1;
  return nf;
}
constexpr std::size_t RunEnd(unsigned m, std::size_t b, std::size_t e, std::size_t nf) {
  std::size_t r = nf;
  for (std::size_t i = b; i < e && At(m, i); ++i) r = i;
  return r;
}
// Predicates for which BinarySearch is defined: true on a prefix of the range.
constexpr bool Monotone(unsigned m, std::size_t b, std::size_t e) {
  for (std::size_t i = b; i + 1 < e; ++i)
    if (!At(m, i) && At(m, i + 1)) return false;
  return true;
}

template<bool Holds, unsigned Mask, std::size_t Start, std::size_t End>
struct LinearSearch_ {
  static_assert(Holds, "VP-WITNESS LinearSearch is not the first value of [Start, End[ for which the predicate holds");
};
template<bool Holds, unsigned Mask, std::size_t Start, std::size_t End>
struct ReverseSearch_ {
  static_assert(Holds, "VP-WITNESS ReverseSearch is not the last value of [Start, End[ for which the predicate holds");
};
template<bool Holds, unsigned Mask, std::size_t Start, std::size_t End>
struct MaxSearch_ {
  static_assert(Holds, "VP-WITNESS MaxSearch is not the end of the run of true values that begins at Start");
};
template<bool Holds, unsigned Mask, std::size_t Start, std::size_t End>
struct BinarySearch_ {
  static_assert(Holds, "VP-WITNESS BinarySearch is not the highest value of [Start, End[ for which a downward closed predicate holds");
};

template<unsigned M, std::size_t B, std::size_t E>
constexpr bool One() {
  using namespace mbo::types;
  (void)LinearSearch_<LinearSearch<Bits<M>::template P, B, E, kOff>::value == First(M, B, E, kOff)
                          && LinearSearchV<Bits<M>::template P, B, E> == First(M, B, E, E), M, B, E>{};
  (void)ReverseSearch_<ReverseSearch<Bits<M>::template P, B, E, kOff>::value == Last(M, B, E, kOff)
                           && ReverseSearchV<Bits<M>::template P, B, E> == Last(M, B, E, E), M, B, E>{};
  (void)MaxSearch_<MaxSearch<Bits<M>::template P, B, E, kOff>::value == RunEnd(M, B, E, kOff)
                       && MaxSearchV<Bits<M>::template P, B, E> == RunEnd(M, B, E, E), M, B, E>{};
  if constexpr (Monotone(M, B, E)) {
    (void)BinarySearch_<BinarySearch<Bits<M>::template P, B, E, kOff>::value == Last(M, B, E, kOff)
                            && BinarySearchV<Bits<M>::template P, B, E> == Last(M, B, E, E), M, B, E>{};
  }
  return true;
}
template<unsigned M, std::size_t B, std::size_t... E>
constexpr bool Ends(std::index_sequence<E...>) {
  return (One<M, B, E>() && ...);
}
template<unsigned M, std::size_t... B>
constexpr bool Starts(std::index_sequence<B...>) {
  return (Ends<M, B>(std::make_index_sequence<kN + 1>{}) && ...);
}
template<std::size_t... M>
constexpr bool Masks(std::index_sequence<M...>) {
  return (Starts<static_cast<unsigned>(M)>(std::make_index_sequence<kN + 1>{}) && ...);
}
static_assert(Masks(std::make_index_sequence<(1U << kN)>{}));

// Longer ranges, where BinarySearch takes more steps: every threshold in every range [B, E[ with B, E <= 40.
template<std::size_t T>
struct Below {
  template<std::size_t I>
  struct P : std::bool_constant<(I < T)> {};
};
template<bool Holds, std::size_t Threshold, std::size_t Start, std::size_t End>
struct BinarySearchLong {
  static_assert(Holds, "VP-WITNESS BinarySearch is not the highest value of [Start, End[ below the threshold");
};
template<std::size_t T, std::size_t B, std::size_t E>
constexpr bool OneLong() {
  constexpr std::size_t kWant = B >= E || T <= B ? kOff : (T < E ? T - 1 : E - 1);
  (void)BinarySearchLong<mbo::types::BinarySearch<Below<T>::template P, B, E, kOff>::value == kWant, T, B, E>{};
  return true;
}
template<std::size_t B, std::size_t E, std::size_t... T>
constexpr bool Thresholds(std::index_sequence<T...>) {
  return (OneLong<T, B, E>() && ...);
}
template<std::size_t B, std::size_t... E>
constexpr bool LongEnds(std::index_sequence<E...>) {
  return (Thresholds<B, E>(std::make_index_sequence<E + 2>{}) && ...);
}
template<std::size_t... B>
constexpr bool LongStarts(std::index_sequence<B...>) {
  return (LongEnds<B * 3>(std::make_index_sequence<34>{}) && ...);
}
static_assert(LongStarts(std::make_index_sequence<8>{}));

// Cases and CaseIndex: every combination of up to six conditions.
template<std::size_t I>
struct Tag {};
template<std::size_t I>
struct WhatImpl {
  using type = Tag<I>;
};
template<>
struct WhatImpl<kOff> {
  using type = void;
};
template<bool Holds, unsigned Mask, std::size_t Count>
struct Cases_ {
  static_assert(Holds, "VP-WITNESS Cases is not the type of the first condition that is true, or void");
};
template<bool Holds, unsigned Mask, std::size_t Count>
struct CaseIndex_ {
  static_assert(Holds, "VP-WITNESS CaseIndex is not the 1-based index of the first condition that is true, or 0");
};
template<unsigned M, std::size_t... I>
constexpr bool Combo(std::index_sequence<I...>) {
  using namespace mbo::types;
  constexpr std::size_t kCount = sizeof...(I);
  (void)Cases_<std::is_same_v<Cases<IfThen<At(M, I), Tag<I>>...>, typename WhatImpl<First(M, 0, kCount, kOff)>::type>, M, kCount>{};
  (void)Cases_<std::is_same_v<Cases<IfThen<At(M, I), Tag<I>>..., IfElse<Tag<kSame>>>, Tag<First(M, 0, kCount, kSame)>>, M, kCount>{};
  (void)CaseIndex_<(CaseIndex<At(M, I)...>) == First(M, 0, kCount, kCount) % kCount + (First(M, 0, kCount, kCount) < kCount ? 1 : 0), M, kCount>{};
  return true;
}
template<std::size_t Count, std::size_t... M>
constexpr bool Combos(std::index_sequence<M...>) {
  return (Combo<static_cast<unsigned>(M)>(std::make_index_sequence<Count>{}) && ...);
}
template<std::size_t... C>
constexpr bool Counts(std::index_sequence<C...>) {
  return (Combos<C + 1>(std::make_index_sequence<(1U << (C + 1))>{}) && ...);
}
static_assert(Counts(std::make_index_sequence<kN>{}));
}  // namespace vp
