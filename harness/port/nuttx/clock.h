#pragma once
#ifdef __arm__
#include <mc.h>
// the tick interrupt counts milliseconds; reading it is a step of its own
static inline uint64_t mc_system_timer() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
#define g_system_timer mc_system_timer()
#endif
