// Scenarios for time (P15, P16): a simulated clock that stalls and whose wall
// time jumps, and chains whose own time is counted in frames.
#include <cmath>
#include <string>

#include "common.hpp"

#include "envelope.hpp"
#include "meta_audio.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;

void wall_jump() {
    if (!sim::fault("wall-clock-jump", 1, 4)) return;
    static const int64_t by[] = {1000000000LL, -1000000000LL, 3600000000000LL, -3600000000000LL * 24 * 365, 7};
    sim::set_wall_offset(by[draw(5)]);
}

class Sink : public SinkModule<> {};

// Produces buffers of drawn shapes and takes simulated time to do so.
class Work : public SourceModule {
public:
    int channels = 1, frames = 8;
    double rate = 8000;
    bool vary = false, stall = true;
    int64_t unit = 1000;
    void process() override {
        if (stall && sim::fault("slow-upstream", 1, 2)) sim::settle(unit + unit * draw(40000));
        wall_jump();
        int f = vary ? static_cast<int>(draw(30)) : frames;
        buff.set_channels(channels);
        buff.set_samplerate(rate);
        buff.resize(static_cast<std::size_t>(f) * channels);
    }
};

// Notes when the stage behind it was working.
class Stopwatch : public AudioModule<> {
public:
    int64_t from = 0, to = 0;
    void meta_process() override {
        from = sim::now();
        this->backward().meta_process();
        to = sim::now();
        this->set_buffer(this->backward().get_buffer());
    }
};

// ---------------------------------------------------------------- P15
void latency() {
    sim::set_budget(60000000);
    Sink sink;
    LatencyModule lat;
    Stopwatch watch;
    ParallelModule par;
    Work work;
    static const int rates[] = {8000, 44100, 48000, 1000, 96000};
    work.rate = rates[draw(5, "rate")];
    work.channels = 1 + static_cast<int>(draw(4, "channels"));
    work.frames = 1 + upto(500, 20000);
    work.vary = draw(2);
    if (draw(4, "very slow") == 3) work.unit = 100000;  // seconds for a block
    bool use_par = draw(2, "parallel");
    par.max_size(1 + draw(3));
    BaseModule* m = sink.link(&lat)->link(&watch);
    if (use_par) m = m->link(&par);
    m->link(&work);
    sink.meta_info_sync();
    int64_t npf = NANO / static_cast<int64_t>(work.rate);
    // blocks of other rates and channels: what all of them last together is open then
    bool mixed = !use_par && draw(4, "mixed formats") == 3, pure = true;
    int64_t frames = 0, samples = 0, total = 0, sum = 0, blocks = 0, started = 0;
    int sessions = 1 + static_cast<int>(draw(3));
    auto check = [&](int64_t now, int64_t slack) {
        if (pure && lat.expected() != frames * npf) sim::fail("wrong-expected", "%lld frames at %g Hz should take %lld ns, reported are %lld", (long long)frames, work.rate, (long long)(frames * npf), (long long)lat.expected());
        if (lat.total_time() != total) sim::fail("wrong-total", "blocks took %lld ns in total, reported are %lld", (long long)total, (long long)lat.total_time());
        if (lat.sum_latency() != sum) sim::fail("wrong-total", "latencies add up to %lld ns, reported are %lld", (long long)sum, (long long)lat.sum_latency());
        if (pure && lat.total_latency() != total - frames * npf) sim::fail("wrong-total", "total latency is %lld ns, reported are %lld", (long long)(total - frames * npf), (long long)lat.total_latency());
        if (blocks && (lat.average_time() != total / blocks || lat.average_latency() != sum / blocks))
            sim::fail("wrong-average", "after %lld blocks: average time %lld, latency %lld, totals are %lld and %lld", (long long)blocks, (long long)lat.average_time(), (long long)lat.average_latency(), (long long)total, (long long)sum);
        if (!blocks && (lat.time() || lat.latency() || lat.average_time() || lat.average_latency()))
            sim::fail("wrong-average", "nothing was measured yet, reported are %lld, %lld and averages of %lld, %lld", (long long)lat.time(), (long long)lat.latency(), (long long)lat.average_time(), (long long)lat.average_latency());
        if (lat.processed() != blocks || lat.samples() != samples)
            sim::fail("wrong-count", "%lld blocks of %lld samples went through, counted are %lld of %lld", (long long)blocks, (long long)samples, (long long)lat.processed(), (long long)lat.samples());
        int64_t e = lat.elapsed();
        if (e < now - started - slack || e > sim::now() - started + slack) sim::fail("wrong-elapsed", "%lld ns elapsed, reported are %lld", (long long)(now - started), (long long)e);
    };
    for (int s = 0; s < sessions; ++s) {
        wall_jump();
        int64_t t0 = sim::now();
        sink.meta_start();
        int64_t t1 = sim::now();
        // the instant of the start is known up to the time starting took
        const int64_t origin = get_time() - sim::now();
        started = lat.get_start_time() - origin;
        if (started < t0 || started > t1) sim::fail("wrong-start", "started between %lld and %lld, reported is %lld", (long long)t0, (long long)t1, (long long)started);
        if (!blocks) check(t0, t1 - t0);
        int pulls = 1 + upto(8, 100);
        for (int i = 0; i < pulls; ++i) {
            if (draw(3) == 2) sim::settle(1000 + 1000LL * draw(50000));
            wall_jump();
            if (mixed && draw(3) == 2) {
                work.rate = rates[draw(5)];
                work.channels = 1 + static_cast<int>(draw(4));
                npf = NANO / static_cast<int64_t>(work.rate);
                if (blocks) pure = false, sim::probe("format-changed");
            }
            int64_t a = sim::now();
            sink.meta_process();
            int64_t b = sim::now();
            AudioBuffer out(sink.get_buffer());
            ++blocks;
            samples += static_cast<int64_t>(out.size());
            int64_t f = static_cast<int64_t>(out.size()) / work.channels;
            frames += f;
            int64_t t = lat.time();
            if (t < watch.to - watch.from || t > b - a)
                sim::fail("wrong-time", "a block took %lld ns, reported are %lld", (long long)(watch.to - watch.from), (long long)t);
            if (lat.latency() != t - f * npf) sim::fail("wrong-latency", "%lld frames took %lld ns, latency is reported as %lld, should be %lld", (long long)f, (long long)t, (long long)lat.latency(), (long long)(t - f * npf));
            total += t;
            sum += lat.latency();
            check(b, 0);
            sim::log("block %lld time %lld latency %lld", (long long)blocks, (long long)t, (long long)lat.latency());
        }
        sink.meta_stop();
        if (draw(3) == 2) {
            const int64_t origin = get_time() - sim::now();
            int64_t r0 = sim::now();
            lat.reset();
            frames = samples = total = sum = blocks = 0;
            pure = true;
            started = lat.get_start_time() - origin;
            if (started < r0 || started > sim::now()) sim::fail("wrong-start", "reset at %lld, reported start is %lld", (long long)r0, (long long)started);
            check(sim::now(), 0);
            sim::probe("measurement-reset");
        }
    }
    if (work.channels > 1) sim::probe("several-channels");
    if (use_par) sim::probe("behind-parallel-stage");
    sim::nontrivial();
}
sim::Reg r1("P15", "latency", latency, 40);

// A session long enough for every counter to pass 2^31 samples: the source
// hands out the same large buffer again and again.
class Huge : public SourceModule {
public:
    int64_t ns = 0;
    void process() override { sim::advance(ns); }
    AudioBuffer& buffer() { return buff; }
};
void latency_long() {
    sim::set_budget(60000000);
    LatencyModule lat;
    Huge src;
    int channels = 1 + static_cast<int>(draw(3, "channels"));
    const int64_t frames = 6000000 / channels;
    src.buffer() = AudioBuffer(static_cast<int>(frames), channels, 48000.0);
    src.ns = 1000000LL * (1 + draw(400000));
    lat.link(&src);
    const int64_t npf = NANO / 48000;
    int64_t total = 0, all = 0, sum = 0;
    int blocks = 400 + static_cast<int>(draw(400));
    lat.meta_start();
    for (int i = 0; i < blocks; ++i) {
        int64_t a = sim::now();
        lat.meta_process();
        int64_t d = sim::now() - a;
        src.set_buffer(lat.get_buffer());
        all += frames;
        total += d;
        sum += d - frames * npf;
        if (lat.time() != d || lat.total_time() != total || lat.sum_latency() != sum || lat.latency() != d - frames * npf)
            sim::fail("wrong-total", "block %d: time %lld of %lld, total %lld of %lld", i, (long long)lat.time(), (long long)d, (long long)lat.total_time(), (long long)total);
        if (lat.expected() != all * npf) sim::fail("wrong-expected", "after %lld frames %lld ns are expected, reported are %lld", (long long)all, (long long)(all * npf), (long long)lat.expected());
        if (lat.total_latency() != total - all * npf) sim::fail("wrong-total", "after %lld frames total latency is %lld", (long long)all, (long long)lat.total_latency());
        if (lat.average_time() != total / (i + 1) || lat.average_latency() != sum / (i + 1))
            sim::fail("wrong-average", "after %d blocks: average time %lld, latency %lld, totals are %lld and %lld", i + 1, (long long)lat.average_time(), (long long)lat.average_latency(), (long long)total, (long long)sum);
        if (lat.samples() != all * channels) sim::fail("wrong-count", "%lld samples went through, counted are %lld", (long long)(all * channels), (long long)lat.samples());
    }
    lat.meta_stop();
    sim::log("%d blocks, %lld frames, %lld ns", blocks, (long long)all, (long long)total);
    sim::probe("session-beyond-2^31-samples");
    sim::nontrivial();
}
sim::Reg r1b("P15", "latency_long", latency_long, 1);

// ---------------------------------------------------------------- P16
struct Seg {
    int kind;  // 0 constant, 1 linear, 2 exponential, 3 switch
    double v0, v1;
    int64_t t0, t1;
    std::unique_ptr<BaseEnvelope> env;
    double at(int64_t k, int64_t npf) const {
        double x = static_cast<double>(k * npf - t0) / static_cast<double>(t1 - t0);
        switch (kind) {
            case 0: return v0;
            case 1: return v0 + (v1 - v0) * x;
            case 2: return v0 * std::pow(v1 / v0, x);
            default: return k < t1 / npf ? v0 : v1;
        }
    }
};
void make(Seg& s, int kind, int64_t t0, int64_t t1) {
    s.kind = kind;
    s.t0 = t0;
    s.t1 = t1;
    s.v0 = (1 + static_cast<double>(draw(40))) / 8;
    s.v1 = (1 + static_cast<double>(draw(40))) / 8;
    switch (kind) {
        case 0: s.env = std::make_unique<ConstantEnvelope>(); break;
        case 1: s.env = std::make_unique<LinearRamp>(); break;
        case 2: s.env = std::make_unique<ExponentialRamp>(); break;
        default: s.env = std::make_unique<SetValue>(); break;
    }
    s.env->set_start_value(s.v0);
    s.env->set_stop_value(s.v1);
    s.env->set_start_time(t0);
    s.env->set_stop_time(t1);
}
bool near(double a, double b) {
    double d = std::fabs(a - b), m = std::fabs(b);
    return d <= 1e-9 * (m > 1 ? m : 1);
}

// Slows down and lets wall time jump between the blocks of an envelope.
class Drag : public AudioModule<> {
public:
    void process() override {
        if (sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(2000)));
        wall_jump();
    }
};

void envelopes() {
    sim::set_budget(60000000);
    static const int rates[] = {8000, 44100, 48000, 1000, 100};
    int rate = rates[draw(5, "rate")];
    const int64_t npf = NANO / rate;
    // where the session stands: fresh, or after many hours
    static const int64_t base[] = {0, 2147483600LL, 4294967200LL, 50000000000LL};
    int64_t pos = draw(3) ? 0 : base[draw(4, "position")];
    if (pos) sim::probe("late-in-a-long-session");
    Sink sink;
    ParallelModule par;
    Drag drag;
    std::vector<Seg> segs;
    std::unique_ptr<ChainEnvelope> chain;
    BaseEnvelope* env;
    std::size_t added = 1;  // how many the chain knows of
    double start_value = 0;
    const int64_t t_base = pos * npf;
    bool chained = draw(2, "chained");
    const int64_t span = upto(1, 3000) ? 3000 : 60;
    auto after = [&](int64_t t) { return t + (draw(2) ? npf * (1 + draw(static_cast<uint32_t>(span))) : 1 + static_cast<int64_t>(draw(1 << 30)) % (span * npf)); };
    if (!chained) {
        segs.emplace_back();
        int64_t t0 = t_base + npf * static_cast<int64_t>(draw(20));
        int64_t t1 = after(t0);
        if (draw(16, "very long") == 15) {
            t1 += npf * 4294967296LL;
            if (pos) t0 = t_base - npf * (pos / 2);
            sim::probe("lasts-beyond-2^32-frames");
        }
        make(segs[0], static_cast<int>(draw(4, "kind")), draw(2) ? t_base : t0, t1);
        env = segs[0].env.get();
    } else {
        chain = std::make_unique<ChainEnvelope>();
        int n = 1 + upto(4, 60, "segments");
        int64_t t = t_base;
        if (draw(4, "lead-in") == 3) {
            t = after(t);  // until then the chain has its own start value
            sim::probe("before-the-first-envelope");
        }
        for (int i = 0; i < n; ++i) {
            int64_t t1 = after(t);
            if (draw(16, "very long") == 15 && t < 2000000000000000000LL) {
                t1 += npf * 4294967296LL;  // for days
                sim::probe("lasts-beyond-2^32-frames");
            }
            segs.emplace_back();
            make(segs.back(), static_cast<int>(draw(4, "kind")), t, t1);
            t = t1;
            if (draw(3) == 2) {
                t = after(t);  // a gap holds the last value
                sim::probe("gap-between-envelopes");
            }
        }
        start_value = draw(2) ? 0.0 : 0.75;
        chain->set_start_value(start_value);
        added = draw(3, "add later") == 2 ? 1 + draw(static_cast<uint32_t>(segs.size())) : segs.size();
        for (std::size_t i = 0; i < added; ++i) chain->add_envelope(segs[i].env.get());
        env = chain.get();
        sim::probe("chained-envelopes");
    }
    bool use_par = draw(2, "parallel");
    par.max_size(1 + draw(3));
    BaseModule* m = &sink;
    if (use_par) m = m->link(&par);
    m->link(&drag)->link(env);
    int block = 1 + upto(40, 5000, "block size");
    sink.get_chain_info()->buffer_size = block;
    sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync();
    env->get_timer()->set_samplerate(rate);
    env->get_timer()->set_sample(pos);
    auto model = [&](int64_t k) {
        if (!chained) return segs[0].at(k, npf);
        for (size_t i = 0; i < added; ++i) {
            if (k < segs[i].t1 / npf) {
                if (k < segs[i].t0 / npf) return i ? segs[i - 1].v1 : start_value;
                return segs[i].at(k, npf);
            }
        }
        return segs[added - 1].v1;
    };
    // what a single ramp does outside of its time is not specified
    auto defined = [&](int64_t k) {
        const Seg& g = segs[0];
        return chained || g.kind == 0 || g.kind == 3 || (k * npf >= g.t0 && k * npf <= g.t1);
    };
    sim::schedule_mode(-1, 0);
    sim::begin_hang_watch("an envelope is played");
    sink.meta_start();
    int pulls = 1 + (span > 60 ? static_cast<int>(draw(300)) : upto(12, 300));
    int64_t k = pos;
    for (int i = 0; i < pulls; ++i) {
        if (!use_par && draw(3) == 2) {
            block = 1 + static_cast<int>(draw(40));
            env->get_info()->out_buffer = block;
        }
        if (!use_par && draw(5) == 4) {
            sink.meta_stop();
            if (draw(2)) sim::settle(1000000LL * draw(100));
            sink.meta_start();
            sim::probe("stopped-and-continued");
        }
        if (!use_par && !chained && draw(8) == 7) {
            // (a chain of envelopes only goes forward)
            k = draw(2) ? pos : pos + static_cast<int64_t>(draw(static_cast<uint32_t>(k - pos) + 1));
            env->get_timer()->set_sample(k);
            sim::probe("moved-back");
        }
        while (!use_par && chained && added < segs.size() && draw(3, "add") == 2) {
            if (k >= segs[added - 1].t1 / npf) sim::probe("added-while-holding");
            chain->add_envelope(segs[added++].env.get());
            sim::probe("envelope-added-while-playing");
        }
        sink.meta_process();
        AudioBuffer b(sink.get_buffer());
        if (static_cast<int>(b.size()) != block) sim::fail("wrong-block", "block of %d frames has %zu", block, b.size());
        for (std::size_t j = 0; j < b.size(); ++j, ++k)
            if (defined(k) && !near(b.at(j), model(k))) sim::fail("wrong-value", "frame %lld (block %d) is %.12g, should be %.12g", (long long)(k - pos), i, b.at(j), model(k));
        if (!use_par && env->get_time() != k * npf) sim::fail("wrong-time", "chain time is %lld ns after %lld frames", (long long)env->get_time(), (long long)k);
        sim::log("block %d of %zu, last %.9g", i, b.size(), b.size() ? b.at(b.size() - 1) : 0.0);
    }
    sink.meta_stop();
    sim::nontrivial();
}
sim::Reg r2("P16", "envelopes", envelopes);

}  // namespace
