// Scenarios for chains (P17..P21): rebuffering, filtering, oscillators, mixing
// and the life of a chain, directly and across worker threads.
#include <cmath>
#include <numbers>

#include "common.hpp"

#include "amp_module.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;

class Sink : public SinkModule<> {};

// Between -1000 and 1000, with 20 binary places: no float holds it, and the sum
// of thousands of them is exact in a double.
double sample(int session, int64_t frame, int channel) {
    uint32_t x = static_cast<uint32_t>(frame * 7 + channel * 3 + session * 131);
    x = x * 2654435761u + 7;
    x ^= x >> 15;
    uint32_t y = x * 2246822519u;
    y ^= y >> 13;
    return static_cast<double>(static_cast<int>(x % 2001) - 1000) + static_cast<double>(y % 1048576) / 1048576;
}

// Audio may be very quiet or very loud (powers of two keep sums exact).
double loudness() {
    double g = std::ldexp(1.0, static_cast<int>(draw(4) == 3 ? (draw(2) ? 32 : -32) : 0));
    if (g != 1) sim::probe(g > 1 ? "very-loud" : "very-quiet");
    return g;
}

/// A stream of known samples, cut into blocks of drawn sizes. It starts over
/// with every session if `own_sessions`.
class Stream : public SourceModule {
public:
    int channels = 1, lo = 0, hi = 20, id = 0;
    double rate = 8000, gain = 1;
    bool own_sessions = true, stalls = false;
    bool from_info = false;
    int session = 0;
    int64_t frame = 0;
    int64_t blocks = 0;
    void start() override {
        SourceModule::start();
        ++session;
        if (own_sessions) frame = 0;
    }
    void process() override {
        if (stalls && sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(50)));
        int f = from_info ? this->get_info()->out_buffer : lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
        buff.set_channels(channels);
        buff.set_samplerate(rate);
        buff.resize(static_cast<std::size_t>(f) * channels);
        for (std::size_t i = 0; i < buff.size(); ++i)
            buff.at(i) = gain * sample(own_sessions ? session + id * 50 : id * 50, frame + static_cast<int64_t>(i) / channels, static_cast<int>(i) % channels);
        frame += f;
        ++blocks;
    }
};

template <class M>
M* into(M* m, BaseModule*& at) {
    at->link(m);
    at = m;
    return m;
}

// ---------------------------------------------------------------- P17
void rebuffer() {
    sim::set_budget(60000000);
    Sink sink;
    ParallelModule before, after;
    UniformBuffer uni;
    Stream src;
    src.channels = 1 + static_cast<int>(draw(4, "channels"));
    src.rate = draw(2) ? 44100 : 8000;
    src.lo = draw(3) ? static_cast<int>(draw(40)) : 0;
    src.hi = src.lo + upto(60, 5000, "spread");
    if (src.hi == 0) src.hi = 1;
    src.gain = loudness();
    src.own_sessions = false;
    src.stalls = draw(2);
    bool p_after = draw(2, "thread behind"), p_before = draw(2, "thread in front");
    before.max_size(1 + draw(3));
    after.max_size(1 + draw(3));
    BaseModule* at = &sink;
    if (p_before) into(&before, at);
    into(&uni, at);
    if (p_after) into(&after, at);
    into(&src, at);
    int block = 1 + upto(50, 5000, "block size");
    sink.get_chain_info()->buffer_size = block;
    sink.get_chain_info()->channels = src.channels;
    sink.get_chain_info()->sample_rate = src.rate;
    by_anyone([&] { sink.meta_info_sync(); });
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("blocks are made uniform");
    by_anyone([&] { sink.meta_start(); });
    int64_t frame = 0;
    int pulls = 1 + upto(12, 300);
    for (int i = 0; i < pulls; ++i) {
        if (!p_before && draw(3) == 2) {
            block = 1 + static_cast<int>(draw(50));
            uni.get_info()->out_buffer = block;
            sim::probe("block-size-changed");
        }
        if (!p_before && !p_after && draw(5) == 4) {
            by_anyone([&] { sink.meta_stop(); });
            by_anyone([&] { sink.meta_start(); });
            sim::probe("stopped-and-continued");
        }
        by_anyone([&] { sink.meta_process(); });
        AudioBuffer b(sink.get_buffer());
        if (static_cast<int>(b.channels()) != src.channels || b.get_samplerate() != src.rate)
            sim::fail("wrong-shape", "block %d has %zu channels at %g Hz", i, static_cast<std::size_t>(b.channels()), b.get_samplerate());
        if (b.size() != static_cast<std::size_t>(block) * src.channels) sim::fail("wrong-size", "block %d has %zu samples instead of %d frames of %d channels", i, b.size(), block, src.channels);
        for (std::size_t k = 0; k < b.size(); ++k) {
            double want = src.gain * sample(0, frame + static_cast<int64_t>(k) / src.channels, static_cast<int>(k) % src.channels);
            if (b.at(k) != want) sim::fail("wrong-audio", "sample %zu of block %d is %g, should be %g", k, i, b.at(k), want);
        }
        frame += block;
        sim::log("block %d of %d frames, upstream made %lld blocks", i, block, (long long)(p_before || p_after ? 0 : src.blocks));
    }
    by_anyone([&] { sink.meta_stop(); });
    if (src.channels > 1) sim::probe("several-channels");
    if (p_before || p_after) sim::probe("across-threads");
    if (src.lo == 0) sim::probe("empty-blocks");
    sim::nontrivial();
}
sim::Reg r17("P17", "rebuffer", rebuffer);

// ---------------------------------------------------------------- P18
class Fir : public BaseConvFilter<> {
public:
    std::vector<double> taps;
    void generate_kernel() override {
        BufferPointer k = std::make_unique<AudioBuffer>(taps.size(), 1);
        for (std::size_t i = 0; i < taps.size(); ++i) k->at(i) = taps[i];
        this->set_kernel(std::move(k));
    }
};

void filter() {
    sim::set_budget(200000000);
    Sink sink;
    ParallelModule before, after;
    Fir fir;
    SincFilter<> sinc;
    Stream src;
    src.channels = 1 + static_cast<int>(draw(3, "channels"));
    src.rate = draw(2) ? 44100 : 8000;
    src.lo = static_cast<int>(draw(20));
    src.hi = src.lo + upto(30, 2500);
    if (src.hi == 0) src.hi = 1;
    src.gain = loudness();
    src.stalls = draw(2);
    bool p_after = draw(2, "thread behind"), p_before = draw(2, "thread in front");
    before.max_size(1 + draw(3));
    after.max_size(1 + draw(3));
    bool use_sinc = draw(3, "filter") == 2;
    BaseModule* at = &sink;
    if (p_before) into(&before, at);
    if (use_sinc)
        into(&sinc, at);
    else
        into(&fir, at);
    if (p_after) into(&after, at);
    into(&src, at);
    sink.get_chain_info()->channels = src.channels;
    sink.get_chain_info()->sample_rate = src.rate;
    by_anyone([&] { sink.meta_info_sync(); });
    int sessions = 1 + static_cast<int>(draw(3));
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("audio is filtered");
    for (int s = 1; s <= sessions; ++s) {
        if (s > 1 && draw(4) == 3) {
            src.channels = 1 + static_cast<int>(draw(3));
            src.rate = draw(2) ? 44100 : 8000;
            sink.get_chain_info()->channels = src.channels;
            sink.get_chain_info()->sample_rate = src.rate;
            by_anyone([&] { sink.meta_info_sync(); });
            sim::probe("other-channels-next-session");
        }
        std::vector<double> taps;
        int n = 1 + upto(24, 400, "kernel size");
        if (use_sinc) {
            if (draw(2, "odd kernel")) n |= 1;
            sinc.set_size(n);
            sinc.set_start_freq(100.0 + draw(1500));
            sinc.set_stop_freq(2000.0 + draw(1500));
            static const dsp::consts::FilterType types[] = {dsp::consts::FilterType::LowPass, dsp::consts::FilterType::HighPass, dsp::consts::FilterType::BandPass, dsp::consts::FilterType::BandReject};
            sinc.set_type(types[draw(4, "filter type")]);
            // a second filter with the same settings tells its taps
            SincFilter<> twin;
            *twin.get_info() = *sinc.get_info();
            twin.set_size(n);
            twin.set_start_freq(sinc.get_start_freq());
            twin.set_stop_freq(sinc.get_stop_freq());
            twin.set_type(sinc.get_type());
            twin.generate_kernel();
            BufferPointer k = twin.get_kernel();
            for (std::size_t i = 0; i < k->size(); ++i) taps.push_back(k->at(i));
        } else {
            for (int i = 0; i < n; ++i) taps.push_back(static_cast<int>(draw(17)) - 8);
            fir.taps = taps;
        }
        by_anyone([&] { sink.meta_start(); });
        int pulls = 1 + upto(8, 100);
        int64_t frame = 0;
        for (int i = 0; i < pulls; ++i) {
            by_anyone([&] { sink.meta_process(); });
            AudioBuffer b(sink.get_buffer());
            if (static_cast<int>(b.channels()) != src.channels || b.get_samplerate() != src.rate)
                sim::fail("wrong-shape", "block %d has %zu channels at %g Hz instead of %d at %g", i, static_cast<std::size_t>(b.channels()), b.get_samplerate(), src.channels, src.rate);
            if (b.size() % src.channels || static_cast<int>(b.size()) < src.lo * src.channels || static_cast<int>(b.size()) > src.hi * src.channels)
                sim::fail("wrong-size", "block %d has %zu samples", i, b.size());
            for (std::size_t k = 0; k < b.size(); ++k) {
                int64_t f = frame + static_cast<int64_t>(k) / src.channels;
                int c = static_cast<int>(k) % src.channels;
                double want = 0, scale = src.gain;
                for (std::size_t j = 0; j < taps.size() && static_cast<int64_t>(j) <= f; ++j) {
                    double t = taps[j] * src.gain * sample(s, f - static_cast<int64_t>(j), c);
                    want += t;
                    scale += std::fabs(t);
                }
                if (std::fabs(b.at(k) - want) > scale * 1e-11) sim::fail("wrong-audio", "frame %lld of channel %d in session %d is %.12g, should be %.12g", (long long)f, c, s, b.at(k), want);
            }
            if (static_cast<int>(b.size()) < n * src.channels) sim::probe("block-shorter-than-kernel");
            frame += static_cast<int64_t>(b.size()) / src.channels;
            sim::log("session %d block %d: %zu samples", s, i, b.size());
        }
        if (!p_before && !p_after && src.frame != frame) sim::fail("lost-audio", "%lld frames went in, %lld came out", (long long)src.frame, (long long)frame);
        by_anyone([&] { sink.meta_stop(); });
        if (s > 1) sim::probe("filter-restarted");
    }
    if (src.channels > 1) sim::probe("several-channels");
    if (p_before || p_after) sim::probe("across-threads");
    sim::nontrivial();
}
sim::Reg r18("P18", "filter", filter);

// ---------------------------------------------------------------- P19
constexpr int OSC_RATES[] = {8192, 8192, 44100, 8000, 11025};  // (at 8192 phases are exact binary fractions)

double wave(int shape, double cycles) {
    double f = cycles - std::floor(cycles);
    switch (shape) {
        case 0: return std::sin(2 * std::numbers::pi * f);
        case 1: return f < 0.5 ? 1.0 : -1.0;
        case 2: return f < 0.5 ? 2 * f : 2 * f - 2;
        default: return f < 0.25 ? 4 * f : f > 0.75 ? 4 * (f - 1) : 4 * (0.5 - f);
    }
}

// Frequency control with a new value for every frame.
double control(int64_t frame) { return 1 + static_cast<double>((frame * 37 + 11) % 3600) / 4; }
class Control : public SourceModule {
public:
    int64_t frame = 0;
    void process() override {
        if (sim::fault("slow-upstream", 1, 5)) sim::settle(1000000LL * (1 + draw(20)));
        this->reserve();
        int c = static_cast<int>(buff.channels());
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = control(frame + static_cast<int64_t>(i) / c);
        frame += static_cast<int64_t>(buff.size()) / c;
    }
};

void oscillate() {
    sim::set_budget(60000000);
    Sink sink;
    ParallelModule par, par2;
    AmplitudeScale<> drag(1.0);
    SineOscillator o0;
    SquareOscillator o1;
    SawtoothOscillator o2;
    TriangleOscillator o3;
    ModSineOscillator m0;
    ModSquareOscillator m1;
    ModSawtoothOscillator m2;
    ModTriangleOscillator m3;
    BaseOscillator* plain[] = {&o0, &o1, &o2, &o3};
    BaseModulatedOscillator* mod[] = {&m0, &m1, &m2, &m3};
    Control ctl;
    int shape = static_cast<int>(draw(4, "shape"));
    bool modulated = draw(2, "modulated");
    bool moving = modulated && draw(2);
    double freq = 0.25 * static_cast<double>(1 + draw(8000, "frequency"));
    int rate = OSC_RATES[draw(5, "sample rate")];
    bool exact = rate == 8192;
    bool threads = draw(2, "thread in front"), ctl_thread = moving && draw(2);
    int64_t pos = draw(50);
    switch (draw(6, "position")) {
        case 3: pos += 1000000 + static_cast<int64_t>(draw(100000)); break;
        case 4: pos += (1LL << 24) - 25; break;
        case 5: pos += (1LL << (31 + draw(2))) - 25; break;
        default: break;
    }
    if (pos > 1000000) sim::probe("played-for-hours");
    BaseModule* osc = modulated ? static_cast<BaseModule*>(mod[shape]) : plain[shape];
    std::vector<double> acc;  // cycles at every frame
    double cycles = 0;
    if (modulated) {
        cycles = static_cast<double>(draw(64)) / 64;
        mod[shape]->set_phase(cycles);
        if (moving) {
            BaseModule* at = mod[shape]->get_frequency();
            if (ctl_thread) into(&par2, at);
            into(&ctl, at);
            sim::probe("moving-frequency");
        } else {
            mod[shape]->get_frequency()->set_constant(freq);
        }
    } else {
        plain[shape]->set_frequency(freq);
        plain[shape]->set_phase(static_cast<double>(pos));
    }
    par.max_size(1 + draw(3));
    par2.max_size(1 + draw(3));
    BaseModule* at = &sink;
    if (threads) into(&par, at);
    into(&drag, at);
    into(osc, at);
    int block = 1 + upto(60, 6000, "block size");
    int channels = 1 + static_cast<int>(draw(3, "channels"));
    sink.get_chain_info()->buffer_size = block;
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->sample_rate = rate;
    by_anyone([&] { sink.meta_info_sync(); });
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("an oscillator is played");
    by_anyone([&] { sink.meta_start(); });
    int64_t k = 0;
    int pulls = 1 + upto(10, 200);
    for (int i = 0; i < pulls; ++i) {
        if (!threads && !modulated && draw(3) == 2) {
            block = 1 + static_cast<int>(draw(60));
            osc->get_info()->out_buffer = block;
            sim::probe("block-size-changed");
        }
        if (!threads && !ctl_thread && draw(5) == 4) {
            by_anyone([&] { sink.meta_stop(); });
            if (draw(2)) sim::settle(1000000LL * draw(1000));
            by_anyone([&] { sink.meta_start(); });
            sim::probe("stopped-and-continued");
        }
        if (sim::fault("slow-consumer", 1, 4)) sim::settle(1000000LL * (1 + draw(50)));
        by_anyone([&] { sink.meta_process(); });
        AudioBuffer b(sink.get_buffer());
        if (b.size() != static_cast<std::size_t>(block) * channels) sim::fail("wrong-size", "block %d has %zu samples instead of %d frames of %d channels", i, b.size(), block, channels);
        for (int f = 0; f < block; ++f, ++k) {
            double c = modulated ? cycles : freq * static_cast<double>(pos + k) / rate;
            double want = wave(shape, c);
            // at other rates it may round to either side of a step
            double off = std::fabs(c * 2 - std::round(c * 2));
            for (int ch = 0; ch < channels; ++ch) {
                double got = b.at(static_cast<std::size_t>(f * channels + ch));
                if (!exact && shape != 0 && off < 1e-6) continue;
                double tol = 1e-9 + 1e-15 * (std::fabs(c) + 1) * (exact ? 100.0 : modulated ? 100.0 + static_cast<double>(k) : 100.0);
                if (std::fabs(got - want) > tol) sim::fail("wrong-wave", "frame %lld of channel %d is %.12g, should be %.12g", (long long)k, ch, got, want);
            }
            cycles += (moving ? control(k) : freq) / rate;
        }
        sim::log("shape %d block %d: %d frames, last %.9g", shape, i, block, b.at(b.size() - 1));
    }
    by_anyone([&] { sink.meta_stop(); });
    if (channels > 1) sim::probe("several-channels");
    if (threads || ctl_thread) sim::probe("across-threads");
    sim::nontrivial();
}
sim::Reg r19("P19", "oscillate", oscillate);

// ---------------------------------------------------------------- P20
// Source whose nth block is a pure function of n and has its own size.
class Numbered : public SourceModule {
public:
    int id = 0, channels = 1, lo = 1, hi = 1;
    bool stalls = false;
    double gain = 1;
    int done_at = -1;  // declares itself done at this block, and goes on
    int64_t n = 0;
    int session = 0;
    std::size_t size_of(int64_t b) const { return static_cast<std::size_t>(lo + static_cast<int>((b * 5 + id) % (hi - lo + 1))) * channels; }
    double at(int ses, int64_t b, std::size_t i) const { return i < size_of(b) ? gain * sample(ses + id * 50, b * 1000 + static_cast<int64_t>(i), 0) : 0; }
    void start() override {
        SourceModule::start();
        n = 0;
        ++session;
    }
    void process() override {
        if (stalls && sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(50)));
        this->reserve(static_cast<int>(size_of(n)) / channels, channels);
        buff.set_samplerate(8000);
        if (buff.size() != size_of(n) || static_cast<int>(buff.channels()) != channels)
            sim::fail("wrong-size", "reserved %zu values of %d channels instead of %zu of %d", buff.size(), (int)buff.channels(), size_of(n), channels);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = at(session, n, i);
        if (n == done_at) {
            this->done();
            sim::probe("inputs-that-are-done");
        }
        ++n;
    }
};

class Periods : public PeriodSink {
public:
    std::vector<AudioBuffer> got;
    void process() override { got.push_back(this->buff); }
};

// one mixer with its inputs; nested mixers are inputs too
struct Mix {
    std::unique_ptr<ModuleMixDown> mod;
    std::vector<Numbered*> in;
    std::vector<Mix> sub;
    std::size_t size = 0;
    double at(int s, int64_t n, std::size_t i) const {
        double v = 0;
        if (i >= size) return 0;
        for (auto* p : in) v += p->at(s, n, i);
        for (const auto& m : sub) v += m.at(s, n, i);
        return v;
    }
};

void mixing() {
    sim::set_budget(60000000);
    std::vector<std::unique_ptr<Numbered>> srcs;
    std::vector<std::unique_ptr<AudioModule<>>> extra;
    Periods sink;
    int channels = 1 + static_cast<int>(draw(3, "channels"));
    int block = 1 + upto(20, 1500, "block size");
    sink.get_chain_info()->buffer_size = block;
    sink.get_chain_info()->channels = channels;
    bool any_thread = false;
    double gain = loudness();
    std::vector<std::unique_ptr<ParallelModule>> pars;  // destroyed first
    auto thread = [&](BaseModule* at) -> BaseModule* {
        if (pars.size() >= 5 || draw(2)) return at;
        pars.push_back(std::make_unique<ParallelModule>());
        pars.back()->max_size(1 + draw(3));
        at->link(pars.back().get());
        any_thread = true;
        return pars.back().get();
    };
    std::function<Mix(BaseModule*, int)> build = [&](BaseModule* at, int depth) {
        Mix m;
        if (draw(4) == 3) {
            m.mod = std::make_unique<MultiMix>();
            sim::probe("many-to-many");
        } else {
            m.mod = std::make_unique<ModuleMixDown>();
        }
        m.size = static_cast<std::size_t>(block) * channels;
        at = thread(at);
        at->link(m.mod.get());
        int k = 1 + upto(3, 24, "inputs");
        for (int i = 0; i < k; ++i) {
            if (depth > 0 && draw(3) == 2) {
                m.sub.push_back(build(m.mod.get(), depth - 1));
                sim::probe("nested-mixers");
            } else {
                auto s = std::make_unique<Numbered>();
                s->id = static_cast<int>(srcs.size()) + 1;
                s->channels = channels;
                s->gain = gain;
                s->lo = draw(3) ? block : static_cast<int>(draw(20));
                s->hi = s->lo + (draw(3) ? 0 : static_cast<int>(draw(20)));
                s->stalls = draw(2);
                if (draw(3, "done early") == 2) s->done_at = static_cast<int>(draw(6));
                if (s->lo != block || s->hi != block) sim::probe("uneven-inputs");
                BaseModule* in = thread(m.mod.get());
                in->link(s.get());
                m.in.push_back(s.get());
                srcs.push_back(std::move(s));
            }
        }
        return m;
    };
    ModuleMixUp fan;
    bool fan_out = draw(2, "fan out");
    BaseModule* at = &sink;
    int periods = 1 + static_cast<int>(draw(3, "blocks per cycle"));
    if (periods > 1 || draw(2)) sink.set_period(periods);
    if (fan_out) {
        into(&fan, at);
        sim::probe("fan-out");
    }
    Mix root = build(at, 2);
    by_anyone([&] { sink.meta_info_sync(); });
    int sessions = 1 + static_cast<int>(draw(2));
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("inputs are mixed");
    for (int s = 1; s <= sessions; ++s) {
        by_anyone([&] { sink.meta_start(); });
        int cycles = 1 + upto(5, 60);
        int64_t n = 0;
        for (int c = 0; c < cycles; ++c) {
            sink.got.clear();
            by_anyone([&] { sink.meta_process(); });
            if (static_cast<int>(sink.got.size()) != periods) sim::fail("wrong-count", "a cycle of %d blocks delivered %zu", periods, sink.got.size());
            for (auto& b : sink.got) {
                if (b.size() != root.size) sim::fail("wrong-size", "mix %lld has %zu samples instead of %zu", (long long)n, b.size(), root.size);
                for (std::size_t i = 0; i < b.size(); ++i)
                    if (b.at(i) != root.at(s, n, i)) sim::fail("wrong-mix", "sample %zu of mix %lld is %g, should be %g", i, (long long)n, b.at(i), root.at(s, n, i));
                ++n;
            }
            if (!any_thread)
                for (auto& p : srcs)
                    if (p->n != n) sim::fail("wrong-count", "an input was processed %lld times in %lld cycles", (long long)p->n, (long long)n);
            if (fan_out) {
                // whoever else asks for the same block gets the same block
                int more = static_cast<int>(draw(3));
                for (int o = 0; o < more; ++o) {
                    AudioBuffer b(fan.get_buffer());
                    if (b.size() != root.size || static_cast<int>(b.channels()) != channels) sim::fail("wrong-copy", "a copy has %zu samples instead of %zu", b.size(), root.size);
                    for (std::size_t i = 0; i < b.size(); ++i)
                        if (b.at(i) != root.at(s, n - 1, i)) sim::fail("wrong-copy", "sample %zu of a copy is %g, should be %g", i, b.at(i), root.at(s, n - 1, i));
                }
            }
            sim::log("session %d cycle %d: %lld blocks", s, c, (long long)n);
        }
        by_anyone([&] { sink.meta_stop(); });
        if (s > 1) sim::probe("mixer-restarted");
    }
    if (any_thread) sim::probe("across-threads");
    if (channels > 1) sim::probe("several-channels");
    sim::nontrivial();
}
sim::Reg r20("P20", "mixing", mixing);

// ---------------------------------------------------------------- P22
// A control chain's source: frame n of a session has a value of its own.
class Ctl : public SourceModule {
public:
    int id = 0, session = 0;
    int64_t frame = 0;
    bool stalls = false;
    static double at(int id, int session, int64_t frame) { return static_cast<double>((frame * 13 + id * 1009 + session * 331) % 4001) - 2000 + static_cast<double>((frame * 7919 + id * 104729 + 5) % 65536) / 65536; }
    void start() override {
        SourceModule::start();
        frame = 0;
        ++session;
    }
    void process() override {
        if (stalls && sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(50)));
        this->reserve();
        int c = static_cast<int>(buff.channels());
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = at(id, session, frame + static_cast<int64_t>(i) / c);
        frame += static_cast<int64_t>(buff.size()) / c;
    }
};
// Modules with parameters: a source of p0 + 5 * p1, and in * p0 + p1.
void need(const AudioBuffer& p, std::size_t n, int channels, const char* what) {
    if (p.size() != n) sim::fail("wrong-parameter", "%s has %zu values for a block of %zu samples", what, p.size(), n);
    if (static_cast<int>(p.channels()) != channels) sim::fail("wrong-parameter", "%s has %d channels instead of %d", what, (int)p.channels(), channels);
}
class Knobs : public ParamSource<2> {
public:
    ModuleParam a, b;
    Knobs() : ParamSource<2>(&a, &b) {}
    void process() override {
        this->reserve();
        AudioBuffer x(a.get());
        need(x, buff.size(), static_cast<int>(buff.channels()), "a parameter of a source");
        AudioBuffer y(b.get());
        need(y, buff.size(), static_cast<int>(buff.channels()), "a parameter of a source");
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = x.at(i) + 5 * y.at(i);
    }
};
class Effect : public ParamModule<2> {
public:
    ModuleParam a, b;
    explicit Effect(double v) : ParamModule<2>(&a, &b), a(v) {}
    void process() override {
        AudioBuffer x(a.get());
        need(x, buff.size(), static_cast<int>(buff.channels()), "a parameter of a stage");
        AudioBuffer y(b.get());
        need(y, buff.size(), static_cast<int>(buff.channels()), "a parameter of a stage");
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = buff.at(i) * x.at(i) + y.at(i);
    }
};
class KnobSink : public ParamSink<1> {
public:
    ModuleParam a;
    AudioBuffer seen;
    KnobSink() : ParamSink<1>(&a) {}
    void process() override {
        AudioBuffer x(a.get());
        need(x, buff.size(), static_cast<int>(buff.channels()), "a parameter of a sink");
        seen = std::move(x);
    }
};

void parameters() {
    sim::set_budget(60000000);
    std::vector<std::unique_ptr<ParallelModule>> pars;  // (see the end: destroyed first)
    std::vector<std::unique_ptr<Ctl>> ctls;
    std::vector<std::unique_ptr<BaseModule>> extra;
    KnobSink sink;
    double born = static_cast<double>(draw(100));  // a parameter may have its value from the beginning
    Effect fx(born);
    Knobs gen;
    bool stage_thread = draw(3) == 2;  // a worker between sink and stage
    bool gen_thread = draw(3) == 2;    // and one between stage and source
    struct P {
        ModuleParam* p;
        bool on_worker;  // it is processed by a worker
        bool constant = true, threaded = false;
        double value = 0, gain = 1;
        Ctl* ctl = nullptr;
        int64_t taken = 0;  // frames taken from the control chain
    };
    P ps[5] = {{&sink.a, false}, {&fx.a, stage_thread}, {&fx.b, stage_thread}, {&gen.a, stage_thread || gen_thread}, {&gen.b, stage_thread || gen_thread}};
    auto attach = [&](P& p, bool may_thread) {
        p.constant = false;
        p.threaded = may_thread && pars.size() < 5 && draw(2);
        p.gain = 1;
        BaseModule* at = p.p;
        if (p.threaded) {
            pars.push_back(std::make_unique<ParallelModule>());
            pars.back()->max_size(1 + draw(3));
            into(pars.back().get(), at);
            sim::probe("control-on-worker");
        }
        if (draw(3) == 2) {
            extra.push_back(std::make_unique<AmplitudeScale<>>(2.0));
            into(extra.back().get(), at);
            p.gain = 2;
        }
        ctls.push_back(std::make_unique<Ctl>());
        p.ctl = ctls.back().get();
        p.ctl->id = static_cast<int>(ctls.size());
        p.ctl->stalls = draw(2);
        p.taken = 0;
        into(p.ctl, at);
    };
    for (auto& p : ps) {
        if (draw(2, "constant")) {
            attach(p, true);
        } else if (p.p == &fx.a && draw(2)) {
            p.value = born;
        } else {
            p.value = static_cast<double>(draw(100));
            p.p->set_constant(p.value);
        }
    }
    BaseModule* at = &sink;
    auto thread = [&] {
        pars.push_back(std::make_unique<ParallelModule>());
        pars.back()->max_size(1 + draw(3));
        into(pars.back().get(), at);
    };
    if (stage_thread) thread();
    into(&fx, at);
    if (gen_thread) thread();
    into(&gen, at);
    int block = 1 + static_cast<int>(draw(4) == 3 ? 400 + draw(200) : draw(30, "block size"));
    int channels = 1 + static_cast<int>(draw(3, "channels"));
    auto sync = [&] {
        sink.get_chain_info()->buffer_size = block;
        sink.get_chain_info()->channels = channels;
        sink.get_chain_info()->sample_rate = 8000;
        by_anyone([&] { sink.meta_info_sync(); });
    };
    sync();
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("modules with parameters are played");
    int sessions = 1 + static_cast<int>(draw(3, "sessions"));
    bool workers = stage_thread || gen_thread;
    for (auto& p : ps) workers = workers || p.threaded;
    for (int s = 0; s < sessions; ++s) {
        if (s > 0 && draw(2)) {
            // another block size for this session
            block = 1 + static_cast<int>(draw(30));
            channels = 1 + static_cast<int>(draw(3, "channels"));
            sync();
            sim::probe("block-size-changed");
        }
        by_anyone([&] { sink.meta_start(); });
        for (auto& p : ps)
            if (!p.constant) p.taken = 0;
        int pulls = 1 + upto(6, 120);
        for (int n = 0; n < pulls; ++n) {
            if (sim::fault("slow-consumer", 1, 5)) sim::settle(1000000LL * (1 + draw(50)));
            for (auto& p : ps) {
                if (p.on_worker || draw(4) != 3) continue;
                if (draw(3) < 2 || (p.threaded && !p.constant) || workers) {
                    // a knob is turned while playing
                    p.constant = true;
                    p.value = static_cast<double>(draw(100)) - 50 + static_cast<double>(draw(65536)) / 65536;
                    p.p->set_constant(p.value);
                    sim::probe("constant-while-playing");
                } else {
                    // a control chain is plugged in while playing
                    attach(p, false);
                    sync();
                    sim::probe("chain-while-playing");
                }
            }
            by_anyone([&] { sink.meta_process(); });
            AudioBuffer b(sink.get_buffer());
            std::size_t size = static_cast<std::size_t>(block) * channels;
            if (b.size() != size) sim::fail("wrong-size", "block %d has %zu samples instead of %zu", n, b.size(), size);
            for (std::size_t i = 0; i < size; ++i) {
                auto val = [&](const P& p) {
                    return p.constant ? p.value : p.gain * Ctl::at(p.ctl->id, p.ctl->session, p.taken + static_cast<int64_t>(i) / channels);
                };
                double want = (val(ps[3]) + 5 * val(ps[4])) * val(ps[1]) + val(ps[2]);
                if (b.at(i) != want) sim::fail("wrong-audio", "sample %zu of block %d in session %d is %.12g, its parameters make it %.12g", i, n, s, b.at(i), want);
                if (sink.seen.at(i) != val(ps[0])) sim::fail("wrong-parameter", "value %zu of block %d in session %d is %.12g, should be %.12g", i, n, s, sink.seen.at(i), val(ps[0]));
            }
            for (auto& p : ps) p.taken += block;
            sim::log("session %d block %d: %.9g", s, n, b.at(0));
        }
        by_anyone([&] { sink.meta_stop(); });
        if (s) sim::probe("restarted");
    }
    if (channels > 1) sim::probe("several-channels");
    if (workers) sim::probe("across-threads");
    pars.clear();
    sim::nontrivial();
}
sim::Reg r22("P22", "parameters", parameters);

// ---------------------------------------------------------------- P21
// What a module was told. The module itself may live on a worker thread, so
// everything is kept in harness variables: MOD + 8*id.
enum { STARTS, STOPS, FINISHES, SYNCS, AT, PROCESSED, DONES };
int64_t var(int id, int what) { return sim::get(MOD + 8 * id + what); }
void bump(int id, int what) {
    sim::add(MOD + 8 * id + what, 1);
    sim::set(MOD + 8 * id + AT, sim::add(TMP, 1));
}

template <class Base>
class Member : public Base {
public:
    using Base::Base;
    int id = 0;
    int64_t lasts = -1;  // done on its own after this many blocks
   
    void start() override {
        Base::start();
        bump(id, STARTS);
        sim::set(MOD + 8 * id + PROCESSED, 0);
        sim::set(MOD + 8 * id + DONES, 0);
    }
    void stop() override {
        Base::stop();
        bump(id, STOPS);
    }
    void finish() override {
        bump(id, FINISHES);
        sim::add(MOD + 8 * id + DONES, 1);
        Base::finish();
    }
    void info_sync() override {
        Base::info_sync();
        bump(id, SYNCS);
    }
    void process() override {
        Base::process();
        int64_t n = sim::add(MOD + 8 * id + PROCESSED, 1);
        if (n == lasts) {
            sim::add(MOD + 8 * id + DONES, 1);
            this->done();
        }
    }
};
class Plain : public AudioModule<> {};
class Gen : public SourceModule {
public:
    void process() override {
        this->reserve();
        if (sim::fault("slow-upstream", 1, 5)) sim::settle(1000000LL * (1 + draw(20)));
    }
};
class Tuned : public ParamModule<1> {
public:
    void process() override { p.get(); }
    ModuleParam p;
    Tuned() : ParamModule<1>(&p) {}
};
class TunedGen : public ParamSource<1> {
public:
    void process() override {
        this->reserve();
        p.get();
    }
    ModuleParam p;
    TunedGen() : ParamSource<1>(&p) {}
};

struct Node {
    int id;
    BaseModule* mod;
    std::vector<int> up;  // ids of what is directly behind
    bool main;            // part of the main chain, not of a parameter
    int chain;            // which chain: 0 main, else index of parameter
    bool recorded;
};

void lifecycle() {
    sim::set_budget(60000000);
    std::vector<std::unique_ptr<BaseModule>> mods;
    std::vector<Node> nodes;
    struct Param {
        ModuleParam* p;
        int count;
    };
    std::vector<Param> params;
    std::vector<std::unique_ptr<ParallelModule>> pars;
    std::vector<ParallelModule*> workers;  // those of the main chain
    Member<Sink> sink;
    int next = 1;
    std::vector<int> chain_count(1, 1);
    int64_t never = draw(3) ? 2 : 4;
    bool threads = draw(4, "threads") > 0;
    int64_t together = draw(4) == 3 ? 1 + static_cast<int64_t>(draw(3)) : -1;  // all are done after as many blocks
    auto add = [&]<class T>(T* m, int chain) {
        m->id = next++;
        if (draw(static_cast<uint32_t>(never)) == 1) m->lasts = 1 + static_cast<int64_t>(draw(5));
        if (together > 0) m->lasts = together;
        mods.emplace_back(m);
        nodes.push_back({m->id, m, {}, chain == 0, chain, true});
        ++chain_count[static_cast<std::size_t>(chain)];
        return nodes.size() - 1;
    };
    // builds what is behind `at`, returns the ids of the recording modules directly behind it
    std::function<std::vector<int>(BaseModule*, int, int)> build = [&](BaseModule* at, int chain, int depth) -> std::vector<int> {
        if (next > 40) depth = 0;
        auto behind = [&](BaseModule* m, std::size_t ix) {
            std::vector<int> up = build(m, chain, depth - 1);
            nodes[ix].up = up;
            return std::vector<int>{nodes[ix].id};
        };
        auto param = [&](ModuleParam* p) {
            chain_count.push_back(1);
            int c = static_cast<int>(chain_count.size()) - 1;
            params.push_back({p, c});
            if (depth > 0 && draw(2)) {
                build(p, c, depth - 1);
            } else {
                p->set_constant(3);
                ++chain_count[static_cast<std::size_t>(c)];
            }
            sim::probe("parameters");
        };
        switch (depth > 0 ? draw(6, "module") : 0) {
            case 1: {
                auto* m = new Member<Plain>;
                at->link(m);
                return behind(m, add(m, chain));
            }
            case 2: {
                if (!threads || pars.size() >= 5) break;
                pars.push_back(std::make_unique<ParallelModule>());
                auto* p = pars.back().get();
                p->max_size(1 + draw(3));
                at->link(p);
                ++chain_count[static_cast<std::size_t>(chain)];
                if (chain == 0) workers.push_back(p);
                sim::probe("across-threads");
                return build(p, chain, depth - 1);
            }
            case 3: {
                auto* m = new Member<ModuleMixDown>;
                at->link(m);
                auto ix = add(m, chain);
                int k = 1 + static_cast<int>(draw(3));
                std::vector<int> up;
                for (int i = 0; i < k; ++i)
                    for (int u : build(m, chain, depth - 1)) up.push_back(u);
                nodes[ix].up = up;
                sim::probe("mixers");
                return {nodes[ix].id};
            }
            case 4: {
                auto* m = new Member<Tuned>;
                at->link(m);
                auto ix = add(m, chain);
                auto r = behind(m, ix);
                param(&m->p);
                return r;
            }
            case 5: {
                auto* m = new Member<TunedGen>;
                at->link(m);
                auto ix = add(m, chain);
                param(&m->p);
                return {nodes[ix].id};
            }
            default: break;
        }
        auto* m = new Member<Gen>;
        at->link(m);
        auto ix = add(m, chain);
        return {nodes[ix].id};
    };
    build(&sink, 0, 4);
    nodes.push_back({0, &sink, {}, true, 0, true});
    int64_t starts = 0, stops = 0, syncs = 0, finishes = 0;
    auto each = [&](const char* what, int which, int64_t want) {
        for (auto& n : nodes)
            if (var(n.id, which) != want && !(which == FINISHES && !n.main)) sim::fail("wrong-reach", "after %lld %s a module was told %lld times", (long long)want, what, (long long)var(n.id, which));
    };
    auto ordered = [&](const char* what, bool upstream_first) {
        for (auto& n : nodes)
            for (int u : n.up)
                if ((var(u, AT) < var(n.id, AT)) != upstream_first) sim::fail("wrong-order", "%s reached a module and the one in front of it in the wrong order", what);
    };
    auto state = [&](BaseModule::State s, bool all) {
        for (auto* w : workers)
            if (w->get_state() != s) sim::fail("wrong-state", "a worker stage is in state %d instead of %d", static_cast<int>(w->get_state()), static_cast<int>(s));
        for (auto& n : nodes)
            if ((all || n.main) && n.mod->get_state() != s) sim::fail("wrong-state", "a module is in state %d instead of %d", static_cast<int>(n.mod->get_state()), static_cast<int>(s));
    };
    auto sync = [&] {
        sink.get_chain_info()->buffer_size = 1 + static_cast<int>(draw(20));
        sink.get_chain_info()->channels = 1 + static_cast<int>(draw(3));
        sink.get_chain_info()->sample_rate = 1000 + static_cast<int>(draw(90000));
        by_anyone([&] { sink.meta_info_sync(); });
        each("syncs", SYNCS, ++syncs);
        ordered("a sync", false);
        auto* ci = sink.get_chain_info();
        for (auto& n : nodes) {
            auto* i = n.mod->get_info();
            if (i->channels != ci->channels || i->sample_rate != ci->sample_rate || i->in_buffer != ci->buffer_size || i->out_buffer != ci->buffer_size)
                sim::fail("wrong-info", "a module expects %d channels at %g Hz in blocks of %d, the chain has %d at %g in blocks of %d", i->channels, i->sample_rate, i->out_buffer, ci->channels, ci->sample_rate, ci->buffer_size);
            int num = n.mod->get_chain_info()->module_num;
            if (num != chain_count[static_cast<std::size_t>(n.chain)]) sim::fail("wrong-number", "a chain of %d modules counts %d", chain_count[static_cast<std::size_t>(n.chain)], num);
            if (n.main && n.mod->get_chain_info() != ci) sim::fail("wrong-info", "a module does not share the information of its chain");
        }
        for (auto* w : workers) {
            auto* i = w->get_info();
            if (w->get_chain_info() != ci || i->channels != ci->channels || i->sample_rate != ci->sample_rate || i->in_buffer != ci->buffer_size || i->out_buffer != ci->buffer_size)
                sim::fail("wrong-info", "a worker stage does not share the information of its chain");
        }
    };
    sync();
    int sessions = 1 + static_cast<int>(draw(3));
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("a chain is run");
    bool running = false;
    auto stop = [&] {
        by_anyone([&] { sink.meta_stop(); });
        each("stops", STOPS, ++stops);
        ordered("a stop", true);
        state(BaseModule::State::Stopped, true);
        running = false;
    };
    if (draw(8) == 7) {
        stop();
        sim::probe("stopped-before-any-start");
    }
    for (int s = 0; s < sessions; ++s) {
        if (running) sim::probe("started-again-without-a-stop");
        if (!running && draw(4) == 3) {
            sync();
            sim::probe("synced-again");
        }
        by_anyone([&] { sink.meta_start(); });
        each("starts", STARTS, ++starts);
        ordered("a start", true);
        if (pars.empty()) state(BaseModule::State::Started, true);
        for (auto* w : workers)
            if (w->get_state() != BaseModule::State::Started) sim::fail("wrong-state", "a worker stage is in state %d after a start", static_cast<int>(w->get_state()));
        if (pars.empty() && sink.get_chain_info()->module_finish != 0) sim::fail("wrong-done", "a chain that was just started reports %d finished modules", sink.get_chain_info()->module_finish);
        int pulls = static_cast<int>(draw(7, "pulls"));
        for (int i = 0; i < pulls; ++i) {
            by_anyone([&] { sink.meta_process(); });
            AudioBuffer b(sink.get_buffer());
        }
        if (pars.empty())
            for (auto& n : nodes)
                if (var(n.id, PROCESSED) != pulls) sim::fail("wrong-reach", "in %d cycles a module was processed %lld times", pulls, (long long)var(n.id, PROCESSED));
        if (draw(3) == 2) sim::settle();
        running = true;
        if (s + 1 < sessions && pars.empty() && draw(4) == 3) continue;
        stop();
        if (draw(5) == 4) {
            stop();
            sim::probe("stopped-twice");
        }
        int64_t done = 0;
        for (auto& n : nodes)
            if (n.main) done += var(n.id, DONES);
        if (sink.get_chain_info()->module_finish != done) sim::fail("wrong-done", "%lld modules are done, the chain counts %d", (long long)done, sink.get_chain_info()->module_finish);
        if (done) sim::probe("modules-done-on-their-own");
        if (draw(3) == 2) {
            int before = sink.get_chain_info()->module_finish;
            sink.meta_finish();
            each("finish requests", FINISHES, ++finishes);
            state(BaseModule::State::Finished, false);
            if (sink.get_chain_info()->module_finish - before != sink.get_chain_info()->module_num)
                sim::fail("wrong-done", "all %d modules finished, the chain counts %d", sink.get_chain_info()->module_num, sink.get_chain_info()->module_finish - before);
            sim::probe("asked-to-finish");
        }
        sim::log("session %d: %d pulls, %lld done, %zu modules", s, pulls, (long long)done, nodes.size());
    }
    pars.clear();
    sim::nontrivial();
}
sim::Reg r21("P21", "lifecycle", lifecycle);
}  // namespace
