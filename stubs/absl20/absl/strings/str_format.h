#pragma once
// Stand-in for Abseil's formatting (the installed version predates "%v"): declarations only.
#include <cstdio>
#include <ostream>
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
namespace absl {
struct FormatSink { void Append(std::string_view); void Append(std::size_t, char); };
struct StreamedFormat {};
std::ostream& operator<<(std::ostream&, const StreamedFormat&);
template<typename... A> std::string StrFormat(std::string_view format, const A&... args);
template<typename... A> StreamedFormat StreamFormat(std::string_view format, const A&... args);
template<typename... A> std::string& StrAppendFormat(std::string* out, std::string_view format, const A&... args);
template<typename S, typename... A> bool Format(S* sink, std::string_view format, const A&... args);
template<typename... A> int PrintF(std::string_view format, const A&... args);
template<typename... A> int FPrintF(std::FILE* out, std::string_view format, const A&... args);
}  // namespace absl
