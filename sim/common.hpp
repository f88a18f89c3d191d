// Shared helpers for scenarios (compiled with instrumentation).
#pragma once
#include "rt.hpp"
#include "rt_int.hpp"

#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

#include "audio_buffer.hpp"
#include "audio_module.hpp"
#include "base_module.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

namespace h {

/// Names of harness variables.
enum V {
    PRODUCED = 0,   // buffers whose processing has finished at the source
    STARTED,        // processing calls begun at the source
    CONSUMED,       // pulls that returned
    REQUESTED,      // pulls begun
    LIMIT,          // current read-ahead limit
    PREV_LIMIT,     // limit before the last lowering
    LOWERED,        // limit was lowered since the last processing call ended
    IN_PROCESS,     // inside upstream processing
    QUIT,
    STOPPED,
    SESSION,
    TMP,
    MOD = 256       // per-module block: MOD + 8*id
};

/// Exact sample value for buffer n of source s, position i.
inline double value(int s, int64_t n, std::size_t i) { return static_cast<double>((s + 1) * 1000003LL + n * 4099LL + static_cast<int64_t>(i % 61)) + static_cast<double>((n * 7 + static_cast<int64_t>(i) * 11 + 1) % 1024) / 1024; }

/// Mostly below `usual`; at most one such size per run is drawn from below `big`.
inline int upto(uint32_t usual, uint32_t big, const char* label = nullptr) {
    static bool used = false;  // (one run is one process)
    static int in = 0;
    if (in != sim::generation()) used = false;
    in = sim::generation();
    bool far = !used && sim::draw(64) == 63;
    used |= far;
    if (far) {
        sim::probe("large-size");
        sim::raise_budget(2000000000);
    }
    return static_cast<int>(sim::draw(far ? big : usual, label));
}

/// A chain is not bound to a thread: in some runs its user's calls are made by
/// other threads now and then (one at a time, as the interface demands).
template <class F>
void by_anyone(F call) {
    if (sim::take_turns()) {
        sim::probe("another-thread");
        std::thread(call).join();
        return;
    }
    call();
}

/// Everything the body takes has to be given back when it is over. Memory that
/// is kept for good by the program or a thread (a cache, a scratch buffer) is
/// no leak: what leaks is left behind anew by each repetition of the same body.
template <class F>
void no_leak(F body) {
    sim::mark();
    std::size_t base = sim::live_bytes();
    body();
    std::size_t once = sim::live_bytes();
    if (once <= base) return;
    for (int k = 0; k < 2; ++k) {
        std::size_t before = sim::live_bytes();
        sim::rewind();
        body();
        if (sim::live_bytes() < before + (once - base)) {
            sim::probe("memory-kept-for-good");
            return;
        }
    }
    sim::fail("memory-leak", "%zu bytes are left behind when everything is destroyed, and as many by each repetition", once - base);
}

}  // namespace h
