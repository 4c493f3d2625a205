// Shared by all harnesses.
#pragma once
#include "sx.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
extern "C" {
void sx_set_clock(int64_t us);
int64_t sx_clock();
extern int sx_hash_mode;
}
// A fresh symbolic amount of time passes (0 .. max microseconds).
static inline int64_t advance_clock(int64_t max_us, const char* name = "dt") {
  int64_t t = sx_clock() + sx_range(name, 0, max_us);
  sx_set_clock(t);
  return t;
}
static const int64_t kStart = 1500000000000000ll;
static const int64_t kClockMax = 9223372036854775ll;   // the year 2262, where std::chrono ends
