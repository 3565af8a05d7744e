#pragma once
#include "absl/base/log_severity.h"
namespace absl { void SetStderrThreshold(LogSeverity); void SetStderrThreshold(LogSeverityAtLeast); void SetMinLogLevel(LogSeverityAtLeast); }
