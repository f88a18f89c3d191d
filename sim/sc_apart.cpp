// Things that share nothing, used in turns and at once (P28, second half): what
// the library computes for one user does not depend on what it computes, or
// computed, for another.
#include <cmath>
#include <complex>
#include <string>

#include "common.hpp"

#include "amp_module.hpp"
#include "dsp/conv.hpp"
#include "dsp/ft.hpp"
#include "dsp/kernel.hpp"
#include "dsp/window.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"

namespace {
using namespace h;
using sim::draw;
using Values = std::vector<double>;

double noise(uint32_t seed, uint32_t i) {
    uint32_t x = (seed * 131 + i) * 2654435761u + 17;
    x ^= x >> 13;
    x *= 2246822519u;
    x ^= x >> 16;
    return static_cast<double>(x % 2001) / 1000 - 1;
}

class Noise : public SourceModule {
public:
    uint32_t seed = 0, t = 0;
    void start() override { t = 0; }
    void process() override {
        buff = AudioBuffer(static_cast<std::size_t>(this->get_info()->out_buffer), this->get_info()->channels, this->get_info()->sample_rate);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = noise(seed, t++);
    }
};

struct Task {
    int kind = 0;
    uint32_t a = 0;
    int n = 1, channels = 1, block = 4, rate = 8000;
};

Values play(SinkModule<>& sink, const Task& k) {
    sink.get_chain_info()->buffer_size = k.block;
    sink.get_chain_info()->channels = k.channels;
    sink.get_chain_info()->sample_rate = k.rate;
    sink.meta_info_sync();
    sink.meta_start();
    Values r;
    for (int i = 0; i < k.n; ++i) {
        sink.meta_process();
        AudioBuffer b(sink.get_buffer());
        r.push_back(static_cast<double>(b.channels()));
        r.push_back(b.get_samplerate());
        for (std::size_t j = 0; j < b.size(); ++j) r.push_back(b.at(j));
    }
    sink.meta_stop();
    return r;
}

constexpr int KINDS = 15;
Values perform(const Task& k) {
    SinkModule<> sink;
    Noise src, src2;
    src.seed = k.a;
    src2.seed = k.a + 1;
    double f = 20 + static_cast<double>(k.a % 3000);
    switch (k.kind) {
        case 0: {
            SineOscillator o(f);
            sink.link(&o);
            return play(sink, k);
        }
        case 1: {
            SquareOscillator o(f);
            sink.link(&o);
            return play(sink, k);
        }
        case 2: {
            SawtoothOscillator o(f);
            sink.link(&o);
            return play(sink, k);
        }
        case 3: {
            TriangleOscillator o(f);
            sink.link(&o);
            return play(sink, k);
        }
        case 4: {
            // frequency controlled by a chain
            ModSineOscillator s;
            ModTriangleOscillator t;
            ModSquareOscillator q;
            ModSawtoothOscillator w;
            BaseModulatedOscillator* all[] = {&s, &t, &q, &w};
            auto* o = all[k.a % 4];
            AmplitudeScale<> scale(400.0);
            scale.link(&src);
            o->get_frequency()->link(&scale);
            sink.link(o);
            return play(sink, k);
        }
        case 5: {
            SincFilter<> s;
            s.set_size(5 + 2 * static_cast<int>(k.a % 7));
            s.set_start_freq(f);
            s.set_type(k.a & 1 ? dsp::consts::FilterType::HighPass : dsp::consts::FilterType::LowPass);
            sink.link(&s)->link(&src);
            return play(sink, k);
        }
        case 6: {
            ModuleMixDown mix;
            sink.link(&mix);
            mix.link(&src);
            mix.link(&src2);
            return play(sink, k);
        }
        case 7: {
            LinearRamp a;
            ExponentialRamp b;
            ChainEnvelope c;
            Task one = k;
            one.channels = 1;
            int64_t t = 1000000LL * (1 + k.a % 50);
            a.set_start_time(0), a.set_stop_time(t);
            b.set_start_time(t), b.set_stop_time(3 * t);
            a.set_start_value(0.25), a.set_stop_value(1 + k.a % 5);
            b.set_start_value(1 + k.a % 5), b.set_stop_value(0.5);
            c.add_envelope(&a);
            c.add_envelope(&b);
            sink.link(&c);
            sink.get_chain_info()->sample_rate = k.rate;
            c.get_timer()->set_samplerate(k.rate);
            return play(sink, one);
        }
        case 8: {
            // recorded in memory and read back
            CharOStream out;
            WaveWriter w(&out);
            w.set_samplerate(k.rate);
            w.set_bits_per_sample(k.a & 1 ? 8 : 16);
            w.set_channels(k.channels);
            w.start();
            uint32_t t = 0;
            for (int i = 0; i < k.n; ++i) {
                auto b = std::make_unique<AudioBuffer>(static_cast<std::size_t>(k.block), k.channels, static_cast<double>(k.rate));
                for (std::size_t j = 0; j < b->size(); ++j) b->at(j) = noise(k.a, t++);
                w.write_data(std::move(b));
            }
            w.stop();
            Values r(out.get_array().begin(), out.get_array().end());
            CharIStream in;
            in.get_array().assign(out.get_array().begin(), out.get_array().end());
            WaveReader rd(&in);
            rd.start();
            rd.set_buffer_size(k.block);
            for (int i = 0; i <= k.n; ++i) {
                auto b = rd.get_data();
                for (std::size_t j = 0; j < b->size(); ++j) r.push_back(b->at(j));
            }
            rd.stop();
            return r;
        }
        case 9: {
            Values r((static_cast<std::size_t>(k.block) + 3) | 1);
            dsp::kern::sinc_kernel(f / k.rate / 4, static_cast<int>(r.size()), r.begin());
            return r;
        }
        case 10: {
            Values x, y, r;
            for (int i = 0; i < k.block; ++i) x.push_back(noise(k.a, i));
            for (int i = 0; i < k.n; ++i) y.push_back(noise(k.a + 9, i));
            r.resize(x.size() + y.size() - 1);
            dsp::conv::input_conv(x.begin(), x.size(), y.begin(), y.size(), r.begin());
            Values s(r.size());
            dsp::conv::output_conv(x.begin(), x.size(), y.begin(), y.size(), s.begin());
            r.insert(r.end(), s.begin(), s.end());
            return r;
        }
        case 11: {
            int n = 1 << (k.a % 6);
            std::vector<std::complex<double>> x(n), y(n);
            for (int i = 0; i < n; ++i) x[i] = {noise(k.a, i), noise(k.a + 3, i)};
            dsp::ft::fft_c_radix2(x.begin(), n, y.begin());
            std::vector<std::complex<double>> z(n);
            dsp::ft::ifft_c_radix2(y.begin(), n, z.begin());
            Values r;
            for (auto& v : y) r.push_back(v.real()), r.push_back(v.imag());
            for (auto& v : z) r.push_back(v.real()), r.push_back(v.imag());
            return r;
        }
        case 12: {
            Values x, r;
            int n = k.block + 2;
            for (int i = 0; i < n; ++i) x.push_back(noise(k.a, i));
            std::vector<std::complex<double>> y(dsp::ft::length_ft(n));
            dsp::ft::dft(x.begin(), x.size(), y.begin());
            for (auto& v : y) r.push_back(v.real()), r.push_back(v.imag());
            for (int i = 0; i < n; ++i) {
                r.push_back(dsp::win::window_hann(i, n));
                r.push_back(dsp::win::window_hamming(i, n));
                r.push_back(dsp::win::window_blackman(i, n));
            }
            return r;
        }
        case 13: {
            Values r;
            for (int i = 0; i < k.block; ++i) {
                double v = noise(k.a, i);
                r.push_back(mf_int16(v)), r.push_back(mf_uint16(v)), r.push_back(mf_char(v)), r.push_back(mf_uchar(v));
                r.push_back(int16_mf(mf_int16(v))), r.push_back(uchar_mf(mf_uchar(v)));
            }
            return r;
        }
        default: {
            // uneven blocks made uniform, and counted
            class Uneven : public Noise {
            public:
                void process() override {
                    AudioBuffer b(static_cast<std::size_t>(t % 5), 1, this->get_info()->sample_rate);
                    for (std::size_t i = 0; i < b.size(); ++i) b.at(i) = noise(seed, ++t);
                    if (b.size() == 0) ++t;
                    this->set_buffer(std::move(b));
                }
            } u;
            u.seed = k.a;
            Task one = k;
            one.channels = 1;
            UniformBuffer uni;
            Counter c;
            sink.link(&c)->link(&uni)->link(&u);
            Values r = play(sink, one);
            r.push_back(c.processed());
            return r;
        }
    }
}

Task new_task() {
    Task k;
    k.kind = static_cast<int>(draw(KINDS, "what"));
    k.a = draw(64, "which");
    k.n = 1 + static_cast<int>(draw(4));
    k.channels = 1 + static_cast<int>(draw(2));
    k.block = 1 + static_cast<int>(draw(12));
    static const int rates[] = {8000, 44100, 1000};
    k.rate = rates[draw(3)];
    return k;
}

void compare(const Task& k, const Values& got, const Values& want, const char* when) {
    if (got.size() != want.size()) sim::fail("not-independent", "%s, task %d/%u gives %zu values instead of %zu", when, k.kind, k.a, got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        if (std::memcmp(&got[i], &want[i], sizeof(double)) != 0)
            sim::fail("not-independent", "%s, value %zu of task %d/%u is %.17g, alone it is %.17g", when, i, k.kind, k.a, got[i], want[i]);
}

void separate_work() {
    sim::set_budget(120000000);
    std::vector<Task> tasks;
    for (int i = 2 + static_cast<int>(draw(3)); i > 0; --i) {
        tasks.push_back(new_task());
        if (draw(3) == 2) {
            // much the same again
            Task k = tasks.back();
            switch (draw(4)) {
                case 0: k.a += 2; break;
                case 1: k.rate = k.rate == 8000 ? 44100 : 8000; break;
                case 2: k.block += 1; break;
                default: k.channels = 3 - k.channels; break;
            }
            tasks.push_back(k);
        }
    }
    std::vector<Values> alone;
    for (const auto& k : tasks) alone.push_back(perform(k));
    if (draw(2, "again")) {
        // in another order
        for (int n = 1 + static_cast<int>(draw(4)); n > 0; --n) {
            std::size_t i = draw(static_cast<uint32_t>(tasks.size()));
            compare(tasks[i], perform(tasks[i]), alone[i], "after other work");
        }
        sim::probe("after-other-work");
    }
    sim::schedule_mode(-1, 0);
    sim::race_detection(true);
    sim::begin_hang_watch("work that shares nothing is done at once");
    int users = 2 + static_cast<int>(draw(2));
    std::vector<std::vector<std::size_t>> lists(users);
    for (auto& l : lists)
        for (int n = 1 + static_cast<int>(draw(3)); n > 0; --n) l.push_back(draw(static_cast<uint32_t>(tasks.size())));
    auto work = [&](int u) {
        for (std::size_t i : lists[u]) compare(tasks[i], perform(tasks[i]), alone[i], "while others work");
    };
    std::vector<std::thread> threads;
    for (int u = 1; u < users; ++u) threads.emplace_back(work, u);
    work(0);
    for (auto& t : threads) t.join();
    for (const auto& k : tasks) sim::log("task %d/%u", k.kind, k.a);
    for (const auto& v : alone) sim::log("%llx", (unsigned long long)sim::hash_bytes(v.data(), v.size() * sizeof(double)));
    sim::probe("work-at-once");
    sim::nontrivial();
}
sim::Reg r28b("P28", "separate_work", separate_work, 2);
}  // namespace
