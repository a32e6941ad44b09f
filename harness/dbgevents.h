// what a debug build prints of an event goes to the harness
#pragma once
#include <cstdio>
#include <debug_compat.h>
#include <time_compat.h>
#undef DEBUGV3_APPEND
template <typename T> void dbg_event(const char *, const T &, timespan, timespan);
inline void dbg_event(const char *) {}
template <typename T> void dbg_event(const char *, const T &) {}
template <typename T, typename U> void dbg_event(const char *, const T &, const U &) {}
#define DEBUGV3_APPEND(...) dbg_event(__VA_ARGS__)
