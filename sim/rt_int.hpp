// Internal interface between the runtime's translation units.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
bool rt_in_sim();
bool rt_thread_in_sim();
void rt_range(const void* p, size_t n, bool w);
void rt_sync_point();
void rt_trace(const char* s);
void rt_block_sleep(int64_t ns);
extern void (*rt_clock_hook)();
void set_wall_offset(int64_t ns);
void set_clock_hook(void (*f)());
void jump_clock(int64_t ns);
extern bool rt_thread_faults;
}  // namespace sim
