#include "sys.h"
#undef __x86_64__
#undef __x86_64
#define __i386__ 1
