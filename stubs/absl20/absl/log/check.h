#pragma once
#include "absl/log/absl_check.h"
#define CHECK(c) ABSL_CHECK(c)
