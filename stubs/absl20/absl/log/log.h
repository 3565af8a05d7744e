#pragma once
#include "absl/log/absl_log.h"
#define VP_SEV_LEVEL(s) LogLEVEL_(s)
#define VP_SEV_INFO LogINFO()
#define VP_SEV_WARNING LogWARNING()
#define VP_SEV_ERROR LogERROR()
#define VP_SEV_FATAL LogFATAL()
#define LOG(sev) ::vp_log::VP_SEV_##sev
#define LOG_IF(sev, c) VP_LOG_IF_(sev, c)
