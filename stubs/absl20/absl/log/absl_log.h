#pragma once
#include "absl/log/vp_log.h"
#define ABSL_LOG(sev) VP_LOG_(sev)
#define ABSL_DLOG(sev) VP_LOG_(sev)
#define ABSL_VLOG(n) VP_LOG_(INFO)
#define ABSL_LOG_IF(sev, c) VP_LOG_IF_(sev, c)
#define ABSL_LOG_FIRST_N(sev, n) VP_LOG_(sev)
#define ABSL_LOG_EVERY_N(sev, n) VP_LOG_(sev)
