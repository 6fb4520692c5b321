#ifndef FG_SIMRT_H
#define FG_SIMRT_H
#include <cstdint>
// called by the instrumentation (tsanrt.cpp) before every memory access of the simulated program
void fg_access(const void *addr, unsigned size, bool write, const void *pc);
void fg_sync_point(const void *addr);
extern volatile int fg_hot;  // any reason to look at accesses at all?
#endif
