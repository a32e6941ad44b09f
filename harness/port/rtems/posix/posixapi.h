// stand-in: the host has all of it (sys.h)
#pragma once
