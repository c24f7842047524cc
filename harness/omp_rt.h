#pragma once
#include <stdint.h>
namespace ort
{
extern int want, order;  // thread count set by the program; schedule number
extern uint64_t regions, barriers, max_threads;
}
