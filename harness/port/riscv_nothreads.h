#include "sys.h"
#undef __x86_64__
#undef __x86_64
#define __riscv 1
#define NO_THREADS 1
