#pragma once
// Stand-in for RE2 (absent here): the part of its interface this repository uses.
#include <map>
#include <memory>
#include <string>
#include <string_view>
namespace re2 {
class RE2 {
 public:
  class Options {
   public:
    Options();
    void set_literal(bool); void set_case_sensitive(bool); void set_log_errors(bool); void set_dot_nl(bool); void set_posix_syntax(bool);
    void set_never_nl(bool); void set_one_line(bool); void set_never_capture(bool); void set_max_mem(long); void set_longest_match(bool);
    bool log_errors() const; 
  };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Arg { public: Arg(); template<typename T> Arg(T*); };
  RE2(const char*); RE2(const std::string&); RE2(std::string_view); RE2(std::string_view, const Options&); RE2(const char*, CannedOptions);
  RE2(const RE2&) = delete;
  ~RE2();
  enum ErrorCode { NoError = 0, ErrorInternal };
  ErrorCode error_code() const;
  bool ok() const;
  const std::string& pattern() const;
  const std::string& error() const;
  const std::string& error_arg() const;
  int NumberOfCapturingGroups() const;
  template<typename... A> static bool FullMatch(std::string_view, const RE2&, A&&...);
  template<typename... A> static bool PartialMatch(std::string_view, const RE2&, A&&...);
  template<typename... A> static bool Consume(std::string_view*, const RE2&, A&&...);
  template<typename... A> static bool FindAndConsume(std::string_view*, const RE2&, A&&...);
  static bool Replace(std::string*, const RE2&, std::string_view);
  static int GlobalReplace(std::string*, const RE2&, std::string_view);
  static std::string QuoteMeta(std::string_view);
  bool Match(std::string_view, size_t, size_t, Anchor, std::string_view*, int) const;
};
}  // namespace re2
namespace re2 {
class LazyRE2 {
 public:
  RE2& operator*() const;
  RE2* operator->() const;
  RE2* get() const;
  const char* pattern_;
  RE2::CannedOptions options_;
};
}
using re2::RE2;
using re2::LazyRE2;
