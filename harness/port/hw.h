#include "sys.h"
#define __HW__ 1
