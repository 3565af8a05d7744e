// Every pair of scalar types through every comparison entry point of mbo/types/compare.h. Analysed, never executed.
// Names: cmp__<rule>__<kind of a>__<kind of b>__<entry>; the result is -1, 0 or 1.
#include "mbo/types/compare.h"

template<typename O>
inline int Sign(O o) {
  return o < 0 ? -1 : (o > 0 ? 1 : 0);
}
#define VP_ONE(RULE, A, KA, B, KB, NAME, EXPR) \
  extern "C" int cmp__##RULE##__##KA##__##KB##__##NAME(A a, B b) { return EXPR; }

template<typename A, typename B>
concept Less2 = std::three_way_comparable_with<A, B>;  // otherwise the argument would be converted by the caller
template<typename A, typename B>
inline int LessCompare(const A& a, const B& b) {
  if constexpr (Less2<A, B>) return Sign(mbo::types::CompareLess<A>{}.Compare(a, b));
  else return 99;
}
template<typename A, typename B>
inline int LessCompareRev(const A& a, const B& b) {
  if constexpr (Less2<A, B>) return Sign(mbo::types::CompareLess<B>{}.Compare(a, b));
  else return 99;
}
template<typename A, typename B>
inline int LessCall(const A& a, const B& b) {
  if constexpr (Less2<A, B>) return mbo::types::CompareLess<A>{}(a, b) ? 1 : 0;
  else return 99;
}
template<typename A, typename B>
inline int LessCallRev(const A& a, const B& b) {
  if constexpr (Less2<A, B>) return mbo::types::CompareLess<B>{}(a, b) ? 1 : 0;
  else return 99;
}
template<typename A, typename B>
inline int IfIntegral(A a, B b) {
  if constexpr (std::integral<A> && std::integral<B>) return Sign(mbo::types::CompareIntegral(a, b));
  else return 99;
}
template<typename A, typename B>
inline int IfFloat(A a, B b) {
  if constexpr (std::floating_point<A> && std::same_as<A, B>) return Sign(mbo::types::CompareFloat(a, b));
  else return 99;
}

#define VP_PAIR(A, KA, B, KB)                                                             \
  VP_ONE(total, A, KA, B, KB, CompareScalar, Sign(mbo::types::CompareScalar(a, b)))         \
  VP_ONE(total, A, KA, B, KB, CompareArithmetic, Sign(mbo::types::CompareArithmetic(a, b))) \
  VP_ONE(total, A, KA, B, KB, CompareIntegral, IfIntegral(a, b))                            \
  VP_ONE(total, A, KA, B, KB, CompareFloat, IfFloat(a, b))                                  \
  VP_ONE(native, A, KA, B, KB, CompareLess_Compare, LessCompare(a, b))                      \
  VP_ONE(native, A, KA, B, KB, CompareLess_Compare_reversed, LessCompareRev(a, b))          \
  VP_ONE(less, A, KA, B, KB, CompareLess_call, LessCall(a, b))                              \
  VP_ONE(less, A, KA, B, KB, CompareLess_call_reversed, LessCallRev(a, b))

#define VP_ROW(A, KA)                    \
  VP_PAIR(A, KA, bool, b1)               \
  VP_PAIR(A, KA, char, s8c)              \
  VP_PAIR(A, KA, signed char, s8)        \
  VP_PAIR(A, KA, unsigned char, u8)      \
  VP_PAIR(A, KA, short, s16)             \
  VP_PAIR(A, KA, unsigned short, u16)    \
  VP_PAIR(A, KA, int, s32)               \
  VP_PAIR(A, KA, unsigned, u32)          \
  VP_PAIR(A, KA, long, s64)              \
  VP_PAIR(A, KA, unsigned long, u64)     \
  VP_PAIR(A, KA, long long, s64l)        \
  VP_PAIR(A, KA, unsigned long long, u64l) \
  VP_PAIR(A, KA, wchar_t, s32w)          \
  VP_PAIR(A, KA, char8_t, u8c)           \
  VP_PAIR(A, KA, char16_t, u16c)         \
  VP_PAIR(A, KA, char32_t, u32c)         \
  VP_PAIR(A, KA, float, f32)             \
  VP_PAIR(A, KA, double, f64)            \
  VP_PAIR(A, KA, long double, f80)

VP_ROW(bool, b1)
VP_ROW(char, s8c)
VP_ROW(signed char, s8)
VP_ROW(unsigned char, u8)
VP_ROW(short, s16)
VP_ROW(unsigned short, u16)
VP_ROW(int, s32)
VP_ROW(unsigned, u32)
VP_ROW(long, s64)
VP_ROW(unsigned long, u64)
VP_ROW(long long, s64l)
VP_ROW(unsigned long long, u64l)
VP_ROW(wchar_t, s32w)
VP_ROW(char8_t, u8c)
VP_ROW(char16_t, u16c)
VP_ROW(char32_t, u32c)
VP_ROW(float, f32)
VP_ROW(double, f64)
VP_ROW(long double, f80)

extern "C" int cmp__total__s8__s8__WeakToStrong(signed char a, signed char b) {
  return Sign(mbo::types::WeakToStrong(a < b ? std::weak_ordering::less : (a > b ? std::weak_ordering::greater : std::weak_ordering::equivalent)));
}
