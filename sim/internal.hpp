#pragma once
#include <cstdint>
#include <time.h>
namespace sim {
extern bool in_run;
bool in_task();
bool must_yield();
void io_event(uint64_t v);
void syscall_clock(timespec *t);
void set_abort_sig(const char *s);
extern uint32_t alloc_fail_permille;
}
