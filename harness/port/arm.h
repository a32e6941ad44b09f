#include "sys.h"
#undef __x86_64__
#undef __x86_64
#define __arm__ 1
#define CORTEX_M4 1
#define __NUTTX__ 1
#undef __linux__
// NuttX takes smaller stacks than the host
#define pthread_attr_setstacksize(attr, size) (0)
