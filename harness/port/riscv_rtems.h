#include "sys.h"
#undef __x86_64__
#undef __x86_64
#define __riscv 1
#define __riscv_xlen 64
#define __rtems__ 1
#undef __linux__
// RTEMS takes smaller stacks than the host
#define pthread_attr_setstacksize(attr, size) (0)
