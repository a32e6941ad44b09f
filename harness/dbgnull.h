// the formulas' debug messages are made, and printed nowhere
#pragma once
#include <cstdio>
#include <cstring>
#include <string>
#include <algorithm>
#include <cstdarg>
inline int dbg_null(const char *f, ...) {
  static char line[512];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(line, sizeof line, f, a);
  va_end(a);
  memset(line, 0, sizeof line);
  return n;
}
#define printf dbg_null
