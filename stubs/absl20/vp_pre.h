#pragma once
// Declarations newer than the installed Abseil.
#include <string_view>
#include <type_traits>
#include <utility>
namespace absl {
namespace vp_stub { struct Sink { void Append(std::string_view); void Append(std::size_t, char); friend void AbslFormatFlush(Sink*, std::string_view); }; }
template<typename T, typename = void> struct HasAbslStringify : std::false_type {};
template<typename T>
struct HasAbslStringify<T, std::void_t<decltype(AbslStringify(std::declval<vp_stub::Sink&>(), std::declval<const T&>()))>> : std::true_type {};
}
