// Stand-ins for Abseil's logging library (absent here): enough to parse and lower the code that uses it.
#ifndef VP_STUB_ABSL_LOG_H_
#define VP_STUB_ABSL_LOG_H_
#include <ostream>
#include <sstream>
#include "vp_pre.h"
#include <string_view>
#include "absl/base/log_severity.h"
namespace vp_log {
struct Message {
  Message& stream() { return *this; }
  template<typename T> Message& operator<<(const T&) { return *this; }
  Message& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  Message& AtLocation(std::string_view, int) { return *this; }
  Message& NoPrefix() { return *this; }
  Message& WithVerbosity(int) { return *this; }
};
struct FatalMessage : Message {
  [[noreturn]] ~FatalMessage();
  template<typename T> FatalMessage& operator<<(const T&) { return *this; }
  FatalMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  FatalMessage& AtLocation(std::string_view, int) { return *this; }
};
struct Voidify { void operator&&(const Message&) const {} };
template<typename T> T CheckNotNull(T&& t) { if (t == nullptr) { FatalMessage(); } return static_cast<T&&>(t); }
inline constexpr int kINFO = 0, kWARNING = 1, kERROR = 2;
using LogINFO = Message;
using LogWARNING = Message;
using LogERROR = Message;
using LogFATAL = FatalMessage;
using LogQFATAL = FatalMessage;
using LogDFATAL = Message;
inline Message LogLEVEL_(absl::LogSeverity) { return {}; }
}  // namespace vp_log
#define VP_LOG_(sev) ::vp_log::Log##sev()
#define VP_LOG_IF_(sev, c) switch (0) default: !(c) ? (void)0 : ::vp_log::Voidify() && ::vp_log::Log##sev()
#define VP_CHECK_(c) switch (0) default: if (c) {} else ::vp_log::FatalMessage()
#endif
