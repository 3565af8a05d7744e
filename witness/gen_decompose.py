"""Writes the type-level witness for struct decomposition to standard output: gen_decompose.py MAX."""
import sys

HEAD = r'''
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "mbo/types/tuple_extras.h"

namespace vp {
// A distinct one-byte type per position: a tuple element of type H<i>::E& can only be the i-th field.
template<int I>
struct H {
  enum class E : char {};
};
template<bool Holds, int Fields>
struct Accepted {
  static_assert(Holds, "VP-WITNESS a struct with this many fields can be decomposed");
};
template<bool Holds, int Fields>
struct FromLvalue {
  static_assert(Holds, "VP-WITNESS decomposing an lvalue gives a reference to every field, once and in order");
};
template<bool Holds, int Fields>
struct FromConst {
  static_assert(Holds, "VP-WITNESS decomposing a const value gives a const reference to every field, once and in order");
};
template<bool Holds, int Fields>
struct FromRvalue {
  static_assert(Holds, "VP-WITNESS decomposing an rvalue gives the value of every field, once and in order");
};
template<typename S, int N, typename L, typename C, typename R>
constexpr bool Check() {
  using mbo::types::StructToTuple;
  (void)Accepted<mbo::types::CanCreateTuple<S>, N>{};
  if constexpr (mbo::types::CanCreateTuple<S>) {
    (void)FromLvalue<std::is_same_v<decltype(StructToTuple(std::declval<S&>())), L>, N>{};
    (void)FromConst<std::is_same_v<decltype(StructToTuple(std::declval<const S&>())), C>, N>{};
    (void)FromRvalue<std::is_same_v<decltype(StructToTuple(std::declval<S>())), R>, N>{};
  }
  return true;
}
'''

TAIL = r'''
// Shapes: members that are themselves aggregates, arrays or class types, empty bases, and what cannot be decomposed.
template<bool Holds, int Which>
struct Shape {
  static_assert(Holds, "VP-WITNESS which structs can be decomposed, and into how many parts");
};
template<typename T>
constexpr int Parts() {
  if constexpr (mbo::types::CanCreateTuple<T>) return static_cast<int>(std::tuple_size_v<decltype(mbo::types::StructToTuple(std::declval<T&>()))>);
  else return -1;
}
struct Empty0 {};
struct Empty1 {};
struct Empty2 {};
struct Two { int a; int b; };
struct Nested { Two x; int y; Two z; };
struct Arr { int a[3]; int b; };
struct Cls { std::string a; std::vector<int> b; int c; };
struct MoveOnly { MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; MoveOnly(const MoveOnly&) = delete; int v; };
struct Based1 : Empty0 { int a; int b; };
struct Based2 : Empty0, Empty1 { int a; int b; int c; };
class Priv { int a; [[maybe_unused]] int b; };
static_assert((Shape<Parts<Empty0>() == 0, 0>{}, true));
static_assert((Shape<Parts<Two>() == 2, 1>{}, true));
static_assert((Shape<Parts<Nested>() == 3, 2>{}, true));
static_assert((Shape<Parts<Cls>() == 3, 4>{}, true));
static_assert((Shape<Parts<Based1>() == 2, 5>{}, true));
static_assert((Shape<Parts<Based2>() == 3, 6>{}, true));
static_assert((Shape<Parts<Priv>() == -1, 10>{}, true));
static_assert((Shape<Parts<int>() == -1, 12>{}, true));
}  // namespace vp
'''


def main(top):
    out = [HEAD]
    for n in range(1, top + 1):
        e = ["H<%d>::E" % i for i in range(1, n + 1)]
        out.append("struct S%d { %s };" % (n, " ".join("%s f%d;" % (t, i) for i, t in enumerate(e, 1))))
        out.append("static_assert(Check<S%d, %d, std::tuple<%s>, std::tuple<%s>, std::tuple<%s>>());" % (
            n, n, ", ".join(t + "&" for t in e), ", ".join("const " + t + "&" for t in e), ", ".join(e)))
    out.append(TAIL)
    print("\n".join(out))


main(int(sys.argv[1]))
