// Control interface of the simulated sound system (alsa_stub.cpp).
#pragma once
#include <cstdint>

namespace sim {
namespace alsa {
constexpr int CAP = 1 << 22;  // values kept per device
struct Device {
    char name[32];
    char desc[32];
    char io[16];
    bool has_name, has_desc, has_io;
    bool exclusive;      // can be opened once at a time
    int open_error;      // refuse to open
    int config_error;    // refuse the configuration
    bool gone;           // unplugged
    unsigned min_channels, max_channels, min_rate, max_rate, min_periods, max_periods;
    unsigned long min_period_size, max_period_size;
    unsigned own_rate, own_periods;  // what it takes when nothing is asked for
    unsigned long own_period_size;
    // filled by the simulation
    int opens;
    long accepted;       // values handed over (frames * channels)
    long played;         // values that came out of the speaker
    long lost;           // values accepted and then discarded
    int underruns, suspends;
    int runs;            // how often it was set going
    int64_t set_going;   // when that was the last time
    unsigned channels, rate, periods;
    unsigned long period_size, buffer_size;
    int16_t data[CAP];
};
void reset();
Device* add(const char* name, const char* desc, const char* io);
void list_error(int err);  // the device list itself can not be obtained
int open_handles();
int open_lists();
int total_opens();
void faults(bool interruptions, bool underruns, bool suspends, bool unplug);
}  // namespace alsa
}  // namespace sim
