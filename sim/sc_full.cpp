// Whole chains put together from all kinds of parts (P23, P24): from files and
// generators through stages, mixers and workers to a card, a recording or a
// reader, with a faulty disk and card underneath.
#include <cmath>
#include <numbers>
#include <string>

#include "alsa_sim.hpp"
#include "common.hpp"

#include "amp_module.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/alsa_module.hpp"
#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;
namespace alsa = sim::alsa;
enum FullV { ARMED = 100, MAIN_ONLY, FIRED };

// Value in [-1, 1] that 16 bits hold exactly.
int code(int id, int session, int64_t t, int c) {
    uint32_t x = static_cast<uint32_t>(t * 5 + c * 3 + session * 77 + id * 1031);
    x = x * 2654435761u + 99;
    x ^= x >> 15;
    x *= 2246822519u;
    return static_cast<int16_t>(x >> 16);
}
double level(int v) { return v / 32767.0 < -1 ? -1 : v / 32767.0; }

// Fault point of the parts that may give up (P27): the one that counts down to
// zero throws. `here`: only on the thread that uses the chain.
struct Gave {};
void maybe_throw(const char* where) {
    if (sim::get(ARMED) <= 0 || (sim::get(MAIN_ONLY) && sim::self() != 0)) return;
    if (sim::add(ARMED, -1) != 0) return;
    sim::count_fault("part-throws");
    sim::probe(where);
    sim::set(FIRED, 1);
    throw Gave{};
}

class Numbers : public SourceModule {
public:
    int id = 0, channels = 1, lo = 0, hi = 0;  // hi 0: what the chain asks for
    double rate = 8000;
    bool stalls = false;
    const int* which = nullptr;  // session of the chain
    int session = 0;
    int64_t t = 0;
    void start() override {
        SourceModule::start();
        session = *which;
        t = 0;
        maybe_throw("source-throws-at-start");
    }
    void process() override {
        maybe_throw("source-throws");
        if (stalls && sim::fault("slow-upstream", 1, 4)) sim::settle(1000000LL * (1 + draw(30)));
        int f = hi ? lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))) : this->get_info()->out_buffer;
        buff.set_channels(channels);
        buff.set_samplerate(rate);
        buff.resize(static_cast<std::size_t>(f) * channels);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = level(code(id, session, t + static_cast<int64_t>(i) / channels, static_cast<int>(i) % channels));
        t += f;
    }
};

// A stage whose volume is controlled by a chain of its own.
class Tremolo : public ParamModule<1> {
public:
    ModuleParam volume;
    Tremolo() : ParamModule<1>(&volume) {}
    void process() override {
        AudioBuffer v(volume.get());
        if (v.size() != buff.size()) sim::fail("wrong-size", "a control block has %zu values for %zu samples", v.size(), buff.size());
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) *= v.at(i);
    }
};

class Taps : public BaseConvFilter<> {
public:
    std::vector<double> taps;
    void generate_kernel() override {
        BufferPointer k = std::make_unique<AudioBuffer>(taps.size(), 1);
        for (std::size_t i = 0; i < taps.size(); ++i) k->at(i) = taps[i];
        this->set_kernel(std::move(k));
    }
};

// A stage that may give up.
class Shaky : public AudioModule<> {
public:
    void start() override {
        AudioModule<>::start();
        maybe_throw("stage-throws-at-start");
    }
    void process() override { maybe_throw("stage-throws"); }
};

class Reader : public PeriodSink {
public:
    std::vector<AudioBuffer> got;
    void process() override { got.push_back(std::move(this->buff)); }
};

// A recorder at the end of a chain.
class Recorder : public SinkModule<> {
public:
    FOStream file;
    WaveWriter writer;
    Recorder() : writer(&file) {}
    void start() override {
        SinkModule<>::start();
        writer.set_channels(this->get_chain_info()->channels);
        writer.set_samplerate(static_cast<int>(this->get_chain_info()->sample_rate));
        writer.set_bits_per_sample(16);
        writer.start();
    }
    void process() override { writer.write_data(std::make_unique<AudioBuffer>(std::move(this->buff))); }
    void stop() override {
        writer.stop();
        SinkModule<>::stop();
    }
};

struct WavPart {
    FIStream file;
    WaveSource src;
    WavPart() : src(&file) {}
};

struct Chain {
    using Fn = std::function<double(int, int64_t, int)>;
    struct Out {
        Fn at;
        double bound = 1;   // largest magnitude
        double noise = 0;   // deviation that rounding explains
    };
    std::vector<std::unique_ptr<WavPart>> wavs;
    std::vector<std::unique_ptr<AudioBuffer>> loops;
    struct Loop {
        BufferModule* mod;
        AudioBuffer* buf;
        int id;
    };
    std::vector<Loop> loopers;
    std::vector<std::unique_ptr<BaseModule>> mods;
    std::vector<std::unique_ptr<ParallelModule>> pars;  // destroyed first
    std::vector<ModuleParam*> constants;  // parameters that were set to a constant
    int channels = 1, rate = 8000;
    bool once = true;      // there is only one session: parts may carry state over
    bool varying = false;  // there are blocks of varying sizes
    bool workers = true;   // there may be worker threads
    bool shaky = false;    // there may be stages that throw
    int ids = 0, parts = 0;
    int block = 0;         // known once the chain is synced
    int session = 0;
    std::string name;      // in front of the names of its files

    template <class M, class... A>
    M* make(A&&... a) {
        ++parts;
        auto p = std::make_unique<M>(std::forward<A>(a)...);
        M* r = p.get();
        mods.push_back(std::move(p));
        return r;
    }
    BaseModule* thread(BaseModule* at) {
        pars.push_back(std::make_unique<ParallelModule>());
        pars.back()->max_size(1 + draw(3));
        at->link(pars.back().get());
        return pars.back().get();
    }

    Out wav(BaseModule* at) {
        auto part = std::make_unique<WavPart>();
        int id = ids++;
        std::string path = name + "in" + std::to_string(id) + ".wav";
        int frames = static_cast<int>(draw(120, "frames in the file"));
        std::vector<unsigned char> b;
        auto p16 = [&](unsigned v) { b.push_back(v & 255), b.push_back(v >> 8 & 255); };
        auto p32 = [&](uint32_t v) { p16(v & 65535), p16(v >> 16); };
        auto tag = [&](const char* s) { b.insert(b.end(), s, s + 4); };
        uint32_t data = static_cast<uint32_t>(frames) * channels * 2;
        tag("RIFF"), p32(36 + data), tag("WAVE"), tag("fmt "), p32(16), p16(1), p16(channels), p32(rate), p32(rate * channels * 2), p16(channels * 2), p16(16), tag("data"), p32(data);
        for (int t = 0; t < frames; ++t)
            for (int c = 0; c < channels; ++c) p16(static_cast<unsigned>(code(id, 0, t, c)) & 65535);
        int64_t whole = static_cast<int64_t>(frames) * channels;
        if (draw(4) == 3 && frames) {
            size_t cut = 44 + draw(data);
            b.resize(cut);
            whole = static_cast<int64_t>(cut - 44) / 2;
            sim::count_fault("file-truncated");
        }
        sim::disk::put(path.c_str(), b.data(), b.size());
        part->file.set_path(path);
        at->link(&part->src);
        wavs.push_back(std::move(part));
        sim::probe("wave-file");
        int ch = channels;
        return {[id, whole, ch](int, int64_t t, int c) { return t * ch + c < whole ? code(id, 0, t, c) / 32767.0 : 0.0; }, 32768.0 / 32767.0, 0};
    }

    Out source(BaseModule* at, bool free) {
        int k = static_cast<int>(draw(once ? 6 : 5, "source"));
        if (k == 1) return wav(at);
        if (k == 2) {
            double v = static_cast<double>(draw(2001)) / 1000 - 1;
            at->link(make<ConstModule>(v));
            return {[v](int, int64_t, int) { return v; }, std::fabs(v), 0};
        }
        if (k == 3 && !free) {
            loops.push_back(std::make_unique<AudioBuffer>());
            AudioBuffer* buf = loops.back().get();
            auto* m = make<BufferModule>();
            at->link(m);
            int id = ids++;
            loopers.push_back({m, buf, id});
            sim::probe("repeated-buffer");
            return {[id, this](int, int64_t t, int c) { return level(code(id, 0, t % block, c)); }, 1, 0};
        }
        if (k == 5) {
            double f = 1 + static_cast<double>(draw(3000));
            int r = rate;
            if (draw(2)) {
                at->link(make<SineOscillator>(f));
            } else {
                auto* o = make<ModSineOscillator>();
                o->get_frequency()->set_constant(f);
                constants.push_back(o->get_frequency());
                at->link(o);
            }
            sim::probe("oscillator");
            return {[f, r](int, int64_t t, int) { return std::sin(2 * std::numbers::pi * f * static_cast<double>(t) / r); }, 1, 1e-6};
        }
        auto* s = make<Numbers>();
        s->id = ids++;
        s->which = &session;
        s->channels = channels;
        s->rate = rate;
        s->stalls = draw(2);
        if (free) {
            s->lo = static_cast<int>(draw(12));
            s->hi = s->lo + 1 + static_cast<int>(draw(20));
            varying = true;
        }
        at->link(s);
        int id = s->id;
        return {[id](int ses, int64_t t, int c) { return level(code(id, ses, t, c)); }, 1, 0};
    }

    Out build(BaseModule* at, int depth, bool free = false) {
        int len = static_cast<int>(draw(4, "stages"));
        std::vector<std::function<Out(Out)>> ops;  // front to back
        for (int i = 0; i < len; ++i) {
            switch (draw(9, "stage")) {
                case 0:
                case 1:
                    if (workers && pars.size() < 4) {
                        at = thread(at);
                        sim::probe("worker");
                    }
                    break;
                case 2: {
                    double g = static_cast<double>(draw(7)) / 4 - 0.75;
                    auto* m = make<AmplitudeScale<>>(g);
                    at->link(m);
                    at = m;
                    ops.push_back([g](Out o) { return Out{[g, o](int s, int64_t t, int c) { return g * o.at(s, t, c); }, std::fabs(g) * o.bound, o.noise}; });
                    break;
                }
                case 3: {
                    double a = static_cast<double>(draw(9)) / 16 - 0.25;
                    auto* m = make<AmplitudeAdd<>>(a);
                    at->link(m);
                    at = m;
                    ops.push_back([a](Out o) { return Out{[a, o](int s, int64_t t, int c) { return a + o.at(s, t, c); }, std::fabs(a) + o.bound, o.noise}; });
                    break;
                }
                case 4: {
                    auto* m = make<Taps>();
                    for (int n = 1 + static_cast<int>(draw(5)); n > 0; --n) m->taps.push_back(static_cast<double>(draw(9)) / 8 - 0.5);
                    at->link(m);
                    at = m;
                    auto taps = m->taps;
                    ops.push_back([taps](Out o) {
                        double gain = 0;
                        for (double x : taps) gain += std::fabs(x);
                        return Out{[taps, o](int s, int64_t t, int c) {
                                       double v = 0;
                                       for (std::size_t j = 0; j < taps.size() && static_cast<int64_t>(j) <= t; ++j) v += taps[j] * o.at(s, t - static_cast<int64_t>(j), c);
                                       return v;
                                   },
                                   gain * o.bound, gain * o.noise + 1e-11};
                    });
                    sim::probe("filter");
                    break;
                }
                case 5: {
                    BaseModule* m = shaky ? static_cast<BaseModule*>(make<Shaky>()) : draw(2) ? static_cast<BaseModule*>(make<LatencyModule>()) : make<Counter>();
                    at->link(m);
                    at = m;
                    break;
                }
                case 6: {
                    auto* m = make<ModuleMixUp>();
                    at->link(m);
                    at = m;
                    break;
                }
                case 7:
                    if (!free && depth > 0) {
                        auto* m = make<Tremolo>();
                        at->link(m);
                        at = m;
                        Out v;
                        if (draw(2)) {
                            v = build(&m->volume, depth - 1);
                        } else {
                            double x = static_cast<double>(draw(9)) / 4 - 1;
                            m->volume.set_constant(x);
                            constants.push_back(&m->volume);
                            v = Out{[x](int, int64_t, int) { return x; }, std::fabs(x), 0};
                        }
                        ops.push_back([v](Out o) {
                            return Out{[v, o](int s, int64_t t, int c) { return v.at(s, t, c) * o.at(s, t, c); }, v.bound * o.bound, v.bound * o.noise + o.bound * v.noise + 1e-12};
                        });
                        sim::probe("parameter");
                    }
                    break;
                default:
                    if (once) {
                        auto* m = make<UniformBuffer>();
                        at->link(m);
                        at = m;
                        free = true;
                        sim::probe("rebuffered");
                    } else {
                        auto* m = make<AudioModule<>>();
                        at->link(m);
                        at = m;
                    }
            }
        }
        Out base;
        if (depth > 0 && draw(2, "mixer")) {
            BaseModule* mix = draw(3) == 2 ? static_cast<BaseModule*>(make<MultiMix>()) : make<ModuleMixDown>();
            at->link(mix);
            std::vector<Out> in;
            for (int k = 1 + static_cast<int>(draw(3, "inputs")); k > 0; --k) in.push_back(build(mix, depth - 1));
            sim::probe("mixer");
            base.bound = base.noise = 0;
            for (const auto& o : in) base.bound += o.bound, base.noise += o.noise;
            base.at = [in](int s, int64_t t, int c) {
                double v = 0;
                for (const auto& o : in) v += o.at(s, t, c);
                return v;
            };
        } else {
            base = source(at, free);
        }
        for (auto it = ops.rbegin(); it != ops.rend(); ++it) base = (*it)(base);
        return base;
    }

    // Everything behind `front`, brought down to full scale.
    Out whole(BaseModule* front) {
        if (shaky) {
            auto* s = make<Shaky>();
            front->link(s);
            front = s;
        }
        auto* fit = make<AmplitudeScale<>>(1.0);
        front->link(fit);
        Out o = build(fit, 2);
        double g = 1;
        while (g * o.bound > 0.999) g /= 2;
        fit->set_value(g);
        return Out{[g, o](int s, int64_t t, int c) { return g * o.at(s, t, c); }, g * o.bound, g * o.noise};
    }

    // Called after a sync: what is repeated is one block of the chain.
    void synced(BaseModule& sink) {
        block = sink.get_info()->out_buffer;
        for (auto& l : loopers) {
            AudioBuffer b(static_cast<std::size_t>(block), channels, static_cast<double>(rate));
            for (std::size_t i = 0; i < b.size(); ++i) b.at(i) = level(code(l.id, 0, static_cast<int64_t>(i) / channels, static_cast<int>(i) % channels));
            *l.buf = std::move(b);
            l.mod->set_rbuffer(l.buf);
        }
    }
    ~Chain() { pars.clear(); }
};

int encoded(double v) { return v < 0 ? static_cast<int>(v * 32768) : static_cast<int>(v * 32767); }

// One of the ends a chain can have.
struct End {
    int kind = 0;  // 0 reader, 1 recorder, 2 sound card
    std::unique_ptr<Reader> reader;
    std::unique_ptr<Recorder> recorder;
    std::unique_ptr<ALSASink> card;
    alsa::Device* dev = nullptr;
    SinkModule<>* sink = nullptr;
    std::string path;

    explicit End(Chain& c) {
        kind = static_cast<int>(draw(3, "end of the chain"));
        int block = 1 + upto(24, 2000, "block size");
        if (kind == 0) {
            reader = std::make_unique<Reader>();
            reader->set_period(1 + static_cast<int>(draw(3)));
            sink = reader.get();
        } else if (kind == 1) {
            recorder = std::make_unique<Recorder>();
            path = c.name + "out.wav";
            recorder->file.set_path(path);
            sink = recorder.get();
            sim::probe("recorded");
        } else {
            std::string device = c.name + "default";
            dev = alsa::add(device.c_str(), "A card", "Output");
            card = std::make_unique<ALSASink>();
            DeviceInfo info = card->get_device();
            info.name = device;
            info.channels = c.channels;
            info.sample_rate = c.rate;
            info.period_size = 4 + 2 * draw(12, "period size");
            info.period = 2 + draw(3, "periods");
            info.update();
            card->set_device(info);
            sink = card.get();
            sim::probe("played-on-card");
        }
        sink->get_chain_info()->buffer_size = block;
        sink->get_chain_info()->channels = c.channels;
        sink->get_chain_info()->sample_rate = c.rate;
    }
};

// A chain, its end, and what is expected of it.
struct Player {
    Chain c;
    std::unique_ptr<End> end;
    Chain::Out out;
    long before = 0;  // values the card had before this session
    int pulls = 0;
    int64_t t = 0;

    // Draws the format and all parts.
    void make() {
        c.channels = 1 + static_cast<int>(draw(3, "channels"));
        static const int rates[] = {8000, 44100, 22050};
        c.rate = rates[draw(3)];
        c.once = draw(2, "several sessions") == 0;
        end = std::make_unique<End>(c);
        out = c.whole(end->sink);
        by_anyone([&] { end->sink->meta_info_sync(); });
        c.synced(*end->sink);
    }
    void start() {
        ++c.session;
        before = end->dev ? end->dev->accepted : 0;
        pulls = 0;
        t = 0;
        by_anyone([&] { end->sink->meta_start(); });
    }
    void pull() {
        by_anyone([&] { end->sink->meta_process(); });
        ++pulls;
        if (end->kind != 0) return;
        if (static_cast<int>(end->reader->got.size()) != end->reader->get_period()) sim::fail("wrong-count", "a cycle delivered %zu blocks instead of %d", end->reader->got.size(), end->reader->get_period());
        for (auto& b : end->reader->got) {
            if (b.size() == 0 && c.varying) continue;
            if (b.size() % c.channels || (!c.varying && b.size() != static_cast<std::size_t>(c.block) * c.channels))
                sim::fail("wrong-size", "a block of %zu samples was delivered, the chain plays %d frames of %d channels", b.size(), c.block, c.channels);
            if (static_cast<int>(b.channels()) != c.channels) sim::fail("wrong-size", "a block of %d channels was delivered instead of %d", (int)b.channels(), c.channels);
            for (std::size_t i = 0; i < b.size(); ++i) {
                double want = out.at(c.session, t + static_cast<int64_t>(i) / c.channels, static_cast<int>(i) % c.channels);
                if (std::fabs(b.at(i) - want) > 1e-9 + out.noise)
                    sim::fail("wrong-audio", "%sframe %lld of channel %d in session %d is %.12g, the parts of the chain make it %.12g", c.name.c_str(), (long long)(t + i / c.channels), (int)(i % c.channels), c.session, b.at(i), want);
            }
            t += static_cast<int64_t>(b.size()) / c.channels;
        }
        end->reader->got.clear();
    }
    void stop() {
        by_anyone([&] { end->sink->meta_stop(); });
        std::vector<int> got;
        if (end->kind == 1) {
            long n = sim::disk::size(end->path.c_str());
            if (n < 44) sim::fail("wrong-file", "the recording has %ld bytes", n);
            std::vector<unsigned char> b(n);
            sim::disk::get(end->path.c_str(), b.data(), b.size());
            uint32_t data = b[40] | b[41] << 8 | b[42] << 16 | static_cast<uint32_t>(b[43]) << 24;
            if (data != n - 44) sim::fail("wrong-file", "the recording claims %u bytes of audio, it has %ld", data, n - 44);
            for (long i = 44; i + 1 < n; i += 2) got.push_back(static_cast<int16_t>(b[i] | b[i + 1] << 8));
            if (!c.varying && static_cast<long>(got.size()) != static_cast<long>(pulls) * c.block * c.channels)
                sim::fail("wrong-file", "the recording has %zu samples, %d blocks of %d frames of %d channels were played", got.size(), pulls, c.block, c.channels);
        } else if (end->kind == 2) {
            got.assign(end->dev->data + before, end->dev->data + end->dev->accepted);
            if (!c.varying && static_cast<long>(got.size()) != static_cast<long>(pulls) * c.block * c.channels * end->card->get_period())
                sim::fail("lost-audio", "the card got %zu samples, %d times %d blocks of %d frames of %d channels were played", got.size(), pulls, end->card->get_period(), c.block, c.channels);
        }
        for (std::size_t i = 0; i < got.size(); ++i) {
            double want = out.at(c.session, static_cast<int64_t>(i) / c.channels, static_cast<int>(i) % c.channels);
            if (std::abs(got[i] - encoded(want)) > 1 + static_cast<int>(out.noise * 40000))
                sim::fail("wrong-audio", "%sframe %zu of channel %zu in session %d is %d, the parts of the chain make it %d", c.name.c_str(), i / c.channels, i % c.channels, c.session, got[i], encoded(want));
        }
        sim::log("%ssession %d: %d pulls, %lld frames, %zu codes", c.name.c_str(), c.session, pulls, (long long)t, got.size());
    }
};
void nothing_left() {
    if (sim::disk::open_files()) sim::fail("left-open", "%d files are open after stop", sim::disk::open_files());
    if (alsa::open_handles()) sim::fail("left-open", "the sound card is open after stop");
    if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive after stop", sim::live_threads());
}

// ---------------------------------------------------------------- P23
void whole_chain() {
    sim::set_budget(120000000);
    sim::disk::fragment(draw(2, "fragmented I/O"));
    Player p;
    p.make();
    if (p.end->dev) alsa::faults(draw(2), draw(2), draw(3) == 2, false);
    int sessions = p.c.once ? 1 : 2 + static_cast<int>(draw(2));
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("a whole chain is played");
    for (int s = 1; s <= sessions; ++s) {
        p.start();
        int pulls = 1 + upto(8, 150, "pulls");
        for (int n = 0; n < pulls; ++n) {
            if (sim::fault("slow-consumer", 1, 5)) sim::settle(1000000LL * (1 + draw(60)));
            p.pull();
        }
        p.stop();
        nothing_left();
        if (s > 1) sim::probe("played-again");
    }
    if (p.c.channels > 1) sim::probe("several-channels");
    sim::nontrivial();
}
sim::Reg r23("P23", "whole_chain", whole_chain);

// ---------------------------------------------------------------- P28
// What each of the parties does with the library, one step at a time: starting
// and stopping its chain, pulling blocks.
struct Party {
    Player p;
    int left = 0, cycles = 0;
    bool playing = false;
    bool step() {
        if (!playing) {
            if (cycles == 0) return false;
            --cycles;
            p.start();
            playing = true;
            left = 1 + static_cast<int>(draw(5, "pulls"));
        } else if (left > 0) {
            --left;
            p.pull();
        } else {
            p.stop();
            playing = false;
        }
        return true;
    }
};

void separate_chains() {
    sim::set_budget(200000000);
    sim::disk::fragment(draw(2, "fragmented I/O"));
    int n = 2 + static_cast<int>(draw(2, "chains"));
    std::vector<std::unique_ptr<Party>> all;
    bool cards = false;
    for (int i = 0; i < n; ++i) {
        all.push_back(std::make_unique<Party>());
        all.back()->p.c.name = std::to_string(i) + "-";
        all.back()->p.make();
        all.back()->cycles = all.back()->p.c.once ? 1 : 1 + static_cast<int>(draw(3));
        if (all.back()->p.end->dev) cards = true;
    }
    if (cards) alsa::faults(draw(2), draw(2), draw(3) == 2, false);
    sim::schedule_mode(-1, 0);
    sim::race_detection(true);
    sim::begin_hang_watch("chains that share nothing are played");
    if (draw(3, "one thread") == 0) {
        // One thread plays them all, in turns.
        sim::probe("in-turns");
        for (bool more = true; more;) {
            more = false;
            uint32_t first = draw(n);
            for (int i = 0; i < n; ++i) {
                auto& q = *all[(first + i) % n];
                if (draw(3) || i == 0) more |= q.step();
                more |= q.playing || q.cycles > 0;
            }
        }
    } else {
        sim::probe("at-once");
        std::vector<std::thread> users;
        for (int i = 1; i < n; ++i)
            users.emplace_back([&all, i] {
                while (all[i]->step())
                    if (sim::fault("slow-consumer", 1, 6)) sim::settle(1000000LL * (1 + draw(60)));
            });
        while (all[0]->step()) {
        }
        for (auto& u : users) u.join();
    }
    nothing_left();
    sim::nontrivial();
}
sim::Reg r28("P28", "separate_chains", separate_chains);

// ---------------------------------------------------------------- P24
void play_for_long() {
    sim::set_budget(200000000);
    alsa::reset();
    {
        Chain c;
        c.channels = 1 + static_cast<int>(draw(2, "channels"));
        c.once = false;
        End end(c);
        c.whole(end.sink);
        end.sink->meta_info_sync();
        c.synced(*end.sink);
        sim::schedule_mode(-1, 0);
        sim::race_detection(draw(3) == 2);
        sim::begin_hang_watch("a whole chain is played for long");
        int sessions = 1 + static_cast<int>(draw(6, "sessions"));
        std::size_t first = 0;
        // Parts may keep a block for later use, and the queue of a worker
        // takes and returns its memory in pages: that does not add up.
        std::size_t slack = 256 + 1200 * c.pars.size() + 2 * sizeof(double) * c.channels * c.block * (c.parts + 2 * c.pars.size());
        auto play = [&](int n) {
            for (int i = 0; i < n; ++i) {
                end.sink->meta_process();
                if (end.reader) end.reader->got.clear();
            }
            sim::settle(60000000000LL);
        };
        bool longer = c.block * c.channels < 12 && draw(4, "long session") == 3;
        if (longer) sim::raise_budget(2000000000);
        // What a user changes while nothing plays.
        auto change = [&] {
            switch (draw(5, "change")) {
                case 1:
                    for (auto* k : c.constants) k->set_constant(static_cast<double>(draw(5)) / 4), sim::probe("constant-changed");
                    break;
                case 2:
                    end.sink->meta_info_sync();
                    sim::probe("synced-again");
                    break;
                case 3:
                    for (auto& par : c.pars) par->max_size(par->max_size()), sim::probe("limit-set");
                    break;
                case 4:
                    if (end.kind == 2) {
                        DeviceInfo info = end.card->get_device();
                        end.card->get_device_count();
                        end.card->get_device_by_name(info.name);
                        end.card->set_device(info);
                        sim::probe("device-looked-up");
                    }
                    break;
                default: break;
            }
        };
        for (int s = 0; s < sessions; ++s) {
            change();
            end.sink->meta_start();
            play(6);
            std::size_t m = sim::live_bytes();
            if (s == 0) first = m;
            if (m > first + slack) sim::fail("memory-grows", "session %d holds %zu bytes after 6 pulls, the first held %zu", s + 1, m, first);
            int more = static_cast<int>(s == 0 ? longer ? 1000 + draw(1000) : 20 + draw(60, "pulls") : draw(6));
            if (longer && s == 0) sim::probe("long-session");
            play(more);
            std::size_t m2 = sim::live_bytes();
            if (m2 > m + slack) sim::fail("memory-grows", "%zu bytes are in use after 6 pulls and %zu after %d more", m, m2, more);
            end.sink->meta_stop();
            sim::log("session %d: %d pulls", s, more);
        }
        if (longer) {
            // what is left behind by each session adds up
            int n = c.pars.empty() ? 100 : 40 / static_cast<int>(c.pars.size()) - sessions - 1;  // (a run has some 60 threads)
            for (int s = 0; s < n; ++s) {
                change();
                end.sink->meta_start();
                play(1);
                end.sink->meta_stop();
            }
            end.sink->meta_start();
            play(6);
            std::size_t m = sim::live_bytes();
            if (m > first + slack) sim::fail("memory-grows", "after %d sessions %zu bytes are held, the first held %zu", sessions + n, m, first);
            end.sink->meta_stop();
        }
        if (sessions > 1) sim::probe("restarted");
        if (!c.pars.empty()) sim::probe("with-workers");
    }
    sim::nontrivial();
}
void steady_memory() {
    {
        // what the C++ library sets up once and keeps
        FOStream warm;
        warm.set_path("warm");
        warm.start();
        warm.stop();
        std::thread([] {}).join();
    }
    no_leak(play_for_long);
}
sim::Reg r24("P24", "steady_memory", steady_memory);

// ---------------------------------------------------------------- P27
// Sessions in which a part throws or an allocation fails, and flawless ones
// between and after them.
void sessions_that_fail() {
    sim::set_budget(120000000);
    alsa::reset();
    {
        Chain c;
        c.channels = 1 + static_cast<int>(draw(3, "channels"));
        static const int rates[] = {8000, 44100, 22050};
        c.rate = rates[draw(3)];
        c.once = false;
        c.workers = draw(2, "workers");
        c.shaky = true;
        sim::set(MAIN_ONLY, c.workers);  // (what a worker's thread throws ends the process)
        End end(c);
        Chain::Out out = c.whole(end.sink);
        end.sink->meta_info_sync();
        c.synced(*end.sink);
        if (end.dev) alsa::faults(draw(2), draw(2), draw(3) == 2, false);
        int sessions = 2 + static_cast<int>(draw(4));
        sim::schedule_mode(-1, 0);
        sim::race_detection(draw(3) == 2);
        sim::begin_hang_watch("a chain whose parts fail is used");
        bool failed_before = false;
        for (int s = 1; s <= sessions; ++s) {
            c.session = s;
            long before = end.dev ? end.dev->accepted : 0;
            int pulls = 1 + static_cast<int>(draw(6, "pulls"));
            // 1: something throws, 2: an allocation fails at start, 3: later
            int trouble = s == sessions ? 0 : static_cast<int>(draw(4, "trouble"));
            int later = trouble == 3 ? static_cast<int>(draw(pulls)) : -1;
            sim::set(FIRED, 0);
            if (trouble == 1) sim::set(ARMED, 1 + draw(1 + draw(40), "which throws"));
            bool ended = false, memory = false, started = false;
            int done = 0;
            int64_t t = 0;
            int nth = 1 + static_cast<int>(draw(1 + draw(60), "which allocation"));
            if (trouble == 2) sim::alloc_faults(nth, true);
            try {
                end.sink->meta_start();
                started = true;
                if (trouble == 2) memory |= sim::alloc_fault_fired(), sim::alloc_faults(0);
                for (int n = 0; n < pulls; ++n) {
                    if (end.reader) end.reader->got.clear();
                    if (n == later) sim::alloc_faults(nth, true);
                    end.sink->meta_process();
                    if (n == later) memory |= sim::alloc_fault_fired(), sim::alloc_faults(0);
                    ++done;
                    if (end.kind) continue;
                    if (static_cast<int>(end.reader->got.size()) != end.reader->get_period()) sim::fail("wrong-count", "a cycle delivered %zu blocks instead of %d", end.reader->got.size(), end.reader->get_period());
                    for (auto& b : end.reader->got) {
                        if (b.size() != static_cast<std::size_t>(c.block) * c.channels || static_cast<int>(b.channels()) != c.channels)
                            sim::fail("wrong-size", "a block of %zu samples and %d channels was delivered, the chain plays %d frames of %d channels", b.size(), (int)b.channels(), c.block, c.channels);
                        for (std::size_t i = 0; i < b.size(); ++i) {
                            double want = out.at(s, t + static_cast<int64_t>(i) / c.channels, static_cast<int>(i) % c.channels);
                            if (std::fabs(b.at(i) - want) > 1e-9 + out.noise)
                                sim::fail(failed_before ? "wrong-after-failure" : "wrong-audio", "frame %lld of channel %d in session %d is %.12g, the parts of the chain make it %.12g", (long long)(t + i / c.channels), (int)(i % c.channels), s, b.at(i), want);
                        }
                        t += c.block;
                    }
                }
            } catch (const Gave&) {
                ended = true;
                if (!sim::get(FIRED)) sim::fail("unexpected-exception", "an exception of a part arrived, none was thrown");
                sim::set(FIRED, 0);
                sim::probe("throw-arrived");
            } catch (const std::bad_alloc&) {
                ended = true;
                memory |= sim::alloc_fault_fired();
                if (!memory) sim::fail("unexpected-exception", "an allocation was reported as failed, none did");
                sim::probe("bad-alloc-arrived");
            } catch (const std::exception& e) {
                ended = true;
                memory |= sim::alloc_fault_fired();
                if (!memory) sim::fail("unexpected-exception", "an exception (%s) arrived though nothing failed", e.what());
                sim::probe("other-exception-arrived");
            }
            memory |= sim::alloc_fault_fired();
            sim::alloc_faults(0);
            sim::set(ARMED, 0);
            bool again = ended && started && draw(4, "tries on") == 3;
            for (int n = again ? 1 + static_cast<int>(draw(3)) : 0; n > 0; --n) {
                // what it delivers now is open, that it can be stopped is not
                sim::set(ARMED, draw(2) ? 1 + draw(4) : 0);
                try {
                    end.sink->meta_process();
                } catch (const Gave&) {
                }
                sim::set(ARMED, 0), sim::set(FIRED, 0);
                sim::probe("pulled-after-failure");
            }
            if (sim::get(FIRED)) sim::fail("exception-lost", "a part threw, but whoever asked for the block or the start was not told");
            if (ended && !started) sim::probe("failed-start");
            if (memory && !ended) sim::probe("failure-absorbed");
            if (ended && end.kind != 2 && draw(8, "given up") == 7) {
                sim::probe("destroyed-after-failure");
                break;
            }
            try {
                end.sink->meta_stop();
            } catch (const std::exception& e) {
                sim::fail("stop-fails", "after a failure in session %d stop throws: %s", s, e.what());
            }
            if (sim::disk::open_files()) sim::fail("left-open", "%d files are open after stop", sim::disk::open_files());
            if (alsa::open_handles()) sim::fail("left-open", "the sound card is open after stop");
            if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive after stop", sim::live_threads());
            std::vector<int> got;
            std::size_t block = static_cast<std::size_t>(c.block) * c.channels;
            std::size_t whole = 0;
            if (end.kind == 1) {
                long n = sim::disk::size(end.path.c_str());
                if (n >= 44) {
                    std::vector<unsigned char> b(n);
                    sim::disk::get(end.path.c_str(), b.data(), b.size());
                    for (long i = 44; i + 1 < n; i += 2) got.push_back(static_cast<int16_t>(b[i] | b[i + 1] << 8));
                }
                whole = done * block;
            } else if (end.kind == 2) {
                got.assign(end.dev->data + before, end.dev->data + end.dev->accepted);
                whole = done * block * static_cast<std::size_t>(end.card->get_period());
            }
            if (!(ended || memory) && got.size() != whole) sim::fail(failed_before ? "wrong-after-failure" : "lost-audio", "%zu samples arrived in session %d, %zu were played", got.size(), s, whole);
            if (started && !memory && got.size() < whole) sim::fail("lost-audio", "%zu samples arrived in session %d, %zu were played before the failure", got.size(), s, whole);
            if (again) got.resize(whole);
            if (started) {
                for (std::size_t i = 0; i < got.size(); ++i) {
                    double want = out.at(s, static_cast<int64_t>(i) / c.channels, static_cast<int>(i) % c.channels);
                    if (std::abs(got[i] - encoded(want)) > 1 + static_cast<int>(out.noise * 40000))
                        sim::fail(failed_before ? "wrong-after-failure" : "wrong-audio", "frame %zu of channel %zu in session %d is %d, the parts of the chain make it %d", i / c.channels, i % c.channels, s, got[i], encoded(want));
                }
            }
            if (failed_before && !ended && !memory) sim::probe("played-after-failure");
            failed_before |= ended || memory;
            sim::log("session %d: %d pulls, %d ended, %d memory, %zu codes", s, done, ended, memory, got.size());
        }
        if (!c.pars.empty()) sim::probe("with-workers");
    }
    if (sim::disk::open_files()) sim::fail("left-open", "%d files are open when everything is destroyed", sim::disk::open_files());
    if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive when everything is destroyed", sim::live_threads());
    sim::nontrivial();
}
void failing_parts() {
    {
        FOStream warm;
        warm.set_path("warm");
        warm.start();
        warm.stop();
        std::thread([] {}).join();
        try {
            throw Gave{};
        } catch (const Gave&) {
        }
    }
    no_leak(sessions_that_fail);
}
sim::Reg r27("P27", "failing_parts", failing_parts);
}  // namespace
