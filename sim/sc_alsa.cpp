// Scenarios for the sound card sink (P13, P14) on a simulated sound system.
#include "alsa_sim.hpp"
#include "common.hpp"

#include <string>

#include "io/alsa_module.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;
namespace alsa = sim::alsa;

int16_t target(int64_t k) {
    uint32_t x = static_cast<uint32_t>(k) * 2654435761u + 12345;
    x ^= x >> 13;
    // full scale, silence and the values next to them come up often
    static constexpr int16_t edge[] = {32767, -32768, 0, 1, -1, 32766, -32767, 0};
    if ((x & 7) == 0) return edge[x >> 3 & 7];
    return static_cast<int16_t>(x * 2246822519u >> 16);
}
// A sample whose 16 bit value is known exactly.
double value16(int16_t t) {
    if (t < 0) return t / 32768.0;
    double v = (t + 0.25) / 32767.0;
    return v > 1.0 ? 1.0 : v;
}

class Tone : public SourceModule {
public:
    int64_t next = 0;
    int frames = 0;  // 0: what the chain asks for
    int spread = 0;  // blocks have from 0 to as many frames
    int64_t n = 0;
    int channels = 1;
    int slow = 0;
    void process() override {
        if (slow && sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(static_cast<uint32_t>(slow))));
        this->reserve();
        if (frames) this->reserve(frames, channels);
        if (spread) buff.resize(static_cast<std::size_t>(size_of(n) * channels));
        ++n;
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = value16(target(next++));
    }
    void start() override { next = n = 0; }
    int size_of(int64_t k) const { return static_cast<int>((k * 7 + 3) % (spread + 1)); }
};

// ---------------------------------------------------------------- P13
void deliver() {
    sim::set_budget(60000000);
    alsa::reset();
    alsa::Device* d = alsa::add("default", "Default card", draw(2) ? nullptr : "Output");
    alsa::Device* other = alsa::add("other", nullptr, "Output");
    (void)other;
    int channels = 1 + static_cast<int>(draw(3, "channels"));
    int rate = draw(2) ? 8000 : 44100;
    ALSASink sink;
    DeviceInfo info = sink.get_device();
    if (info.load_fail) sim::fail("lookup", "the default device is reported to be unusable");
    info.channels = channels;
    info.sample_rate = rate;
    info.period_size = 4 + 2 * upto(30, 3000, "period size");
    info.period = 2 + draw(4, "periods");
    if (draw(2)) info.update();
    sink.set_device(info);
    Tone tone;
    tone.channels = channels;
    tone.slow = draw(2, "slow source") ? 1 + static_cast<int>(draw(60)) : 0;
    ParallelModule par;
    bool use_par = draw(2, "parallel");
    par.max_size(1 + draw(4));
    if (use_par)
        sink.link(&par)->link(&tone);
    else
        sink.link(&tone);
    sink.meta_info_sync();
    bool own_size = draw(3) == 2;
    if (own_size) tone.frames = 1 + upto(80, 6000);
    if (!own_size && draw(4) == 3) {
        tone.spread = 1 + static_cast<int>(draw(60));
        sim::probe("uneven-blocks");
    }
    int64_t taken = 0;
    alsa::faults(draw(2), draw(2), draw(3) == 2, false);
    bool unplug = draw(6) == 5;
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("audio is played on a sound card");
    int sessions = 1 + static_cast<int>(draw(3));
    for (int s = 0; s < sessions; ++s) {
        if (s && draw(3, "reconfigure") == 2) {
            // the next session plays in another format
            info = sink.get_device();
            info.channels = channels = 1 + static_cast<int>(draw(3, "channels"));
            info.sample_rate = rate = draw(2) ? 8000 : 44100;
            info.period_size = 4 + 2 * draw(30, "period size");
            info.period = 2 + draw(4, "periods");
            sink.set_device(info);
            tone.channels = channels;
            sink.meta_info_sync();
            sim::probe("reconfigured");
        }
        long before = d->accepted, lost0 = d->lost;
        int susp0 = d->suspends;
        if (unplug) alsa::faults(draw(2), draw(2), draw(3) == 2, true);
        sink.meta_start();
        if (!d->gone && (d->channels != static_cast<unsigned>(channels) || d->rate != static_cast<unsigned>(rate)))
            sim::fail("wrong-format", "the card plays %u channels at %u, asked for was %d at %d", d->channels, d->rate, channels, rate);
        if (tone.get_info()->channels != channels || tone.get_info()->sample_rate != rate)
            sim::fail("wrong-format", "the chain is told to make %d channels at %g, the card plays %d at %d", tone.get_info()->channels,
                      static_cast<double>(tone.get_info()->sample_rate), channels, rate);
        int pulls = static_cast<int>(draw(8, "pulls"));
        int64_t expect = 0;
        long per_pull = 0;
        taken = 0;
        for (int i = 0; i < pulls; ++i) {
            sink.meta_process();
            if (!use_par) {
                expect = tone.next;
                taken += sink.get_period();
                if (tone.n != taken) sim::fail("wrong-count", "%lld blocks were made for %lld periods", (long long)tone.n, (long long)taken);
            } else if (tone.spread) {
                for (unsigned k = 0; k < static_cast<unsigned>(sink.get_period()); ++k) expect += static_cast<long>(tone.size_of(taken++)) * channels;
            } else {
                // every pull of the sink takes as many buffers as the card has periods
                per_pull = (tone.frames ? static_cast<long>(tone.frames) * channels : static_cast<long>(tone.get_info()->out_buffer) * tone.get_info()->channels);
                expect += per_pull * sink.get_period();
            }
            long got = d->accepted - before;
            if (got > expect) sim::fail("duplicated", "the card got %ld values, %ld were produced", got, (long)expect);
            for (long k = 0; k < got; ++k)
                if (d->data[before + k] != target(k)) sim::fail("wrong-audio", "value %ld on the card is %d, produced was %d", k, d->data[before + k], target(k));
            if (!d->gone && got != expect) sim::fail("lost-audio", "the card got %ld values, %ld were produced (%d underruns)", got, (long)expect, d->underruns);
            sim::log("pull %d: %ld values", i, got);
        }
        sink.meta_stop();
        if (alsa::open_handles()) sim::fail("left-open", "the sound card is still open after stop");
        if (!d->gone && d->suspends == susp0 && d->lost != lost0) sim::fail("cut-off", "%ld values were handed over and never played", d->lost - lost0);
        sim::log("session %d: played %ld underruns %d", s, d->played, d->underruns);
        if (d->underruns) sim::probe("underrun-recovered");
        if (d->gone) {
            sim::probe("unplugged");
            d->gone = false;  // plugged in again
        }
        if (channels > 1) sim::probe("several-channels");
        sim::nontrivial();
    }
}
sim::Reg r1("P13", "deliver", deliver);

// ---------------------------------------------------------------- P14
struct Entry {
    bool name, usable;
    std::string n, d, io;
};
void lifecycle_of_devices() {
    sim::set_budget(60000000);
    alsa::reset();
    static const char* names[] = {"default", "hw:0", "hw:1", "null", "dmix:CARD=1", "a", "surround"};
    static const char* ios[] = {nullptr, "Output", "Input", "Both"};
    Entry e[8];
    alsa::Device* dev[8];
    int n = static_cast<int>(draw(8, "devices"));
    for (int i = 0; i < n; ++i) {
        bool nameless = draw(6) == 5, no_desc = draw(4) == 3;
        int io = static_cast<int>(draw(4));
        std::string nm = names[draw(7)];
        dev[i] = alsa::add(nameless ? nullptr : nm.c_str(), no_desc ? nullptr : "A sound card", ios[io]);
        dev[i]->exclusive = draw(3) > 0;
        if (draw(4) == 3) dev[i]->open_error = draw(2) ? 16 : 19;
        if (draw(5) == 4) dev[i]->config_error = 22;
        if (draw(2, "own numbers")) {
            auto& d = *dev[i];
            d.max_channels = 1 + draw(12);
            d.min_rate = 1000 + draw(4000);
            d.max_rate = d.min_rate + draw(190000);
            d.own_rate = std::clamp(44100u, d.min_rate, d.max_rate);
            d.min_periods = 2 + draw(3);
            d.max_periods = d.min_periods + draw(30);
            d.own_periods = d.min_periods + draw(d.max_periods - d.min_periods + 1);
            d.min_period_size = 2 + draw(40);
            d.max_period_size = d.min_period_size + draw(5000);
            d.own_period_size = d.min_period_size + draw(static_cast<uint32_t>(d.max_period_size - d.min_period_size + 1));
            sim::probe("devices-with-own-limits");
        }
        e[i].name = !nameless;
        e[i].n = nameless ? "" : nm;
        e[i].d = no_desc ? "" : "A sound card";
        e[i].io = ios[io] ? ios[io] : "";
        if (nameless) sim::probe("nameless-device");
    }
    auto first = [&](const std::string& nm) {
        for (int i = 0; i < n; ++i)
            if (e[i].name && e[i].n == nm) return i;
        return -1;
    };
    auto check_info = [&](const DeviceInfo& di, int i) {
        if (di.id != i || di.name != e[i].n || di.description != e[i].d) sim::fail("wrong-device", "device %d is described as %d \"%s\"", i, di.id, di.name.c_str());
        if (di.output != (e[i].io.empty() || e[i].io == "Output") || di.input != (e[i].io.empty() || e[i].io == "Input"))
            sim::fail("wrong-device", "direction of device %d is wrong", i);
        int o = first(e[i].n);
        bool openable = e[i].name && o >= 0 && !dev[o]->open_error && !(dev[o]->exclusive && dev[o]->opens > 0);
        if (di.load_fail == openable) sim::fail("wrong-device", "device %d %s be opened and load_fail is %d", i, openable ? "can" : "can not", di.load_fail);
        if (!openable || dev[o]->config_error) return;
        auto number = [&](const char* what, unsigned long got, unsigned long want) {
            if (got != want) sim::fail("wrong-description", "%s of device %d is described as %lu, the system states %lu", what, i, got, want);
        };
        auto& d = *dev[o];
        unsigned rate = d.own_rate;  // (44100, or as near as possible)
        number("the number of channels", di.channels, 1);
        number("the smallest number of channels", di.channels_min, d.min_channels);
        number("the largest number of channels", di.channels_max, d.max_channels);
        number("the sample rate", di.sample_rate, rate);
        number("the smallest sample rate", di.sample_rate_min, d.min_rate);
        number("the largest sample rate", di.sample_rate_max, d.max_rate);
        number("the number of periods", di.period, d.own_periods);
        number("the smallest number of periods", di.period_min, d.min_periods);
        number("the largest number of periods", di.period_max, d.max_periods);
        number("the period size", di.period_size, d.own_period_size);
        number("the smallest period size", di.period_size_min, d.min_period_size);
        number("the largest period size", di.period_size_max, d.max_period_size);
        number("the buffer size", di.buffer_size, d.own_periods * d.own_period_size);
        number("the smallest buffer size", di.buffer_size_min, d.min_periods * d.min_period_size);
        number("the largest buffer size", di.buffer_size_max, d.max_periods * d.max_period_size);
        number("the period time", di.period_time, d.own_period_size * 1000000ull / rate);
        number("the smallest period time", di.period_time_min, d.min_period_size * 1000000ull / d.max_rate);
        number("the largest period time", di.period_time_max, d.max_period_size * 1000000ull / d.min_rate);
    };
    {
        if (draw(12) == 11) alsa::list_error(draw(2) ? 2 : 12);
        bool listed = true;
        ALSASink sink;
        alsa::list_error(0);
        (void)listed;
        bool started = false;
        int ops = 1 + static_cast<int>(draw(14, "operations"));
        for (int k = 0; k < ops; ++k) {
            bool bad_list = draw(8) == 7;
            uint32_t op = draw(8, "operation");
            switch (op) {
                case 0: {
                    if (bad_list) alsa::list_error(12);
                    int c = sink.get_device_count();
                    if (c != (bad_list ? 0 : n)) sim::fail("wrong-device", "%d devices are counted, there are %d", c, n);
                    break;
                }
                case 1:
                case 2: {
                    int i = static_cast<int>(draw(12)) - 2;
                    if (bad_list) alsa::list_error(12);
                    DeviceInfo di = sink.get_device_by_id(i);
                    if (i >= 0 && i < n && !bad_list) {
                        check_info(di, i);
                    } else {
                        sim::probe("missing-device-looked-up");
                        if (!di.load_fail) sim::fail("wrong-device", "device %d does not exist and is reported as usable", i);
                    }
                    if (draw(2)) sink.set_device(di);
                    break;
                }
                case 3:
                case 4: {
                    std::string nm = draw(6) == 5 ? std::string("no such device") : std::string(names[draw(7)]);
                    if (bad_list) alsa::list_error(12);
                    DeviceInfo di = sink.get_device_by_name(nm);
                    int i = bad_list ? -1 : first(nm);
                    if (i >= 0)
                        check_info(di, i);
                    else if (!di.load_fail)
                        sim::fail("wrong-device", "device \"%s\" does not exist and is reported as usable", nm.c_str());
                    if (draw(2)) sink.set_device(di);
                    break;
                }
                case 5:
                    sink.start();
                    started = true;
                    if (alsa::open_handles() > 1) sim::fail("handle-leak", "%d devices are open after start", alsa::open_handles());
                    break;
                case 6:
                    sink.stop();
                    if (!started) sim::probe("stop-without-start");
                    started = false;
                    if (alsa::open_handles()) sim::fail("handle-leak", "%d devices are open after stop", alsa::open_handles());
                    break;
                default: {
                    AudioBuffer b(static_cast<int>(1 + draw(20)), 1);
                    sink.set_buffer(std::move(b));
                    sink.process();
                    break;
                }
            }
            alsa::list_error(0);
            if (alsa::open_lists()) sim::fail("list-leak", "a device list was not freed");
            int handles = alsa::open_handles();
            if (handles > (started ? 1 : 0)) sim::fail("handle-leak", "%d devices are open", handles);
            sim::log("operation %d: %u of %d devices, list %d, handles %d, chosen %d", k, op, n, !bad_list, handles, sink.get_device().id);
        }
        sink.stop();
        if (alsa::open_handles()) sim::fail("handle-leak", "%d devices are open after stop", alsa::open_handles());
    }
    sim::nontrivial();
}
void lifecycle() { no_leak(lifecycle_of_devices); }
sim::Reg r2("P14", "lifecycle", lifecycle);
}  // namespace
