// stand-in for the CMSIS header: a tick counter counting down, read from the virtual clock
#pragma once
#include <mc.h>
struct McTickVal { operator uint32_t() const { timespec t; clock_gettime(CLOCK_REALTIME, &t); return 1000000 - (uint32_t)(t.tv_nsec % 1000000); } };
struct McSysTick { McTickVal VAL; uint32_t LOAD; };
static const McSysTick mc_systick = {{}, 1000000};
#define SysTick (&mc_systick)
#define __NOP() ((void)0)
