// Access recorder: the code under test is compiled with -fsanitize=thread and linked with these callbacks instead of the
// sanitizer's runtime, so every load and store of every logical thread is seen by the explorer (one OS thread, controlled).
// Two accesses of different logical threads in the same phase to the same byte, one a write, not both under a lock = conflict.
#pragma once
#include <stddef.h>
#include <stdint.h>
namespace rec
{
struct Race {
  uintptr_t addr, pc1, pc2;
  int t1, t2, w1, w2;  // earlier access, later access
};
extern bool active;
extern uint64_t accesses, writes, phases;
extern void (*on_race)(const Race &);
void begin();                                                 // recording on, new phase
void end();                                                   // recording off, deferred frees done
void phase();                                                 // everything before is ordered before everything after
void thread(int tid, uintptr_t stack_lo, uintptr_t stack_hi);  // who runs now (tid >= 1) and its private stack
void lock(bool on);                                           // inside a critical section
void access(uintptr_t p, size_t n, bool w, uintptr_t pc);
const char *where(uintptr_t pc);  // symbol+offset
}  // namespace rec
