#pragma once
#include "absl/log/vp_log.h"
#define ABSL_CHECK(c) VP_CHECK_(c)
#define ABSL_QCHECK(c) VP_CHECK_(c)
#define ABSL_DCHECK(c) VP_CHECK_(true || (c))
#define ABSL_CHECK_EQ(a, b) VP_CHECK_((a) == (b))
#define ABSL_CHECK_NE(a, b) VP_CHECK_((a) != (b))
#define ABSL_CHECK_LE(a, b) VP_CHECK_((a) <= (b))
#define ABSL_CHECK_LT(a, b) VP_CHECK_((a) < (b))
#define ABSL_CHECK_GE(a, b) VP_CHECK_((a) >= (b))
#define ABSL_CHECK_GT(a, b) VP_CHECK_((a) > (b))
#define ABSL_DCHECK_EQ(a, b) VP_CHECK_(true || (a) == (b))
#define ABSL_DCHECK_NE(a, b) VP_CHECK_(true || (a) != (b))
#define ABSL_DCHECK_LE(a, b) VP_CHECK_(true || (a) <= (b))
#define ABSL_DCHECK_LT(a, b) VP_CHECK_(true || (a) < (b))
#define ABSL_DCHECK_GE(a, b) VP_CHECK_(true || (a) >= (b))
#define ABSL_DCHECK_GT(a, b) VP_CHECK_(true || (a) > (b))
#define ABSL_CHECK_OK(s) VP_CHECK_((s).ok())
#define ABSL_QCHECK_OK(s) VP_CHECK_((s).ok())
#define ABSL_DIE_IF_NULL(v) ::vp_log::CheckNotNull(v)
#define ABSL_QCHECK_EQ(a, b) VP_CHECK_((a) == (b))
