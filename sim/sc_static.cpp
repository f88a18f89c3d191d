// Scenarios for chains that are composed at compile time (P25): they are played
// next to a chain of the same parts that is linked at run time.
#include <string>
#include <type_traits>

#include "common.hpp"

#include "amp_module.hpp"
#include "filter_module.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"

namespace {
using namespace h;
using sim::draw;

/// Counts what happens to it, and gives every block of a session another offset.
template <maecm B = BaseModule*>
class Mark : public AudioModule<Mark<B>, B> {
public:
    int id = 0, starts = 0, stops = 0, finishes = 0, syncs = 0, blocks = 0;
    void start() override {
        AudioModule<Mark<B>, B>::start();
        ++starts;
        blocks = 0;
    }
    void stop() override {
        AudioModule<Mark<B>, B>::stop();
        ++stops;
    }
    void finish() override {
        AudioModule<Mark<B>, B>::finish();
        ++finishes;
    }
    void info_sync() override {
        AudioModule<Mark<B>, B>::info_sync();
        ++syncs;
    }
    void process() override {
        ++blocks;
        for (std::size_t i = 0; i < this->buff.size(); ++i) this->buff.at(i) += id + 10 * blocks;
    }
};

/// A stream of known samples in blocks whose sizes only depend on their number.
class Src : public SourceModule {
public:
    int id = 0, vary = 0;
    bool stalls = false;
    int64_t n = 0, frame = 0;
    int sessions = 0;
    void start() override {
        SourceModule::start();
        n = frame = 0;
        ++sessions;
    }
    void process() override {
        if (stalls && sim::fault("slow-upstream", 1, 5)) sim::settle(1000000LL * (1 + draw(20)));
        int f = this->get_info()->out_buffer;
        if (vary) f = static_cast<int>((n * 2654435761u + 3 * id) % static_cast<unsigned>(vary));
        int c = this->get_info()->channels;
        this->reserve(f, c);
        buff.set_samplerate(this->get_info()->sample_rate);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = value(id + 5 * sessions, frame, i);
        ++n;
        frame += f;
    }
};

template <class M>
constexpr bool is_static = !std::is_pointer_v<typename M::BT>;

/// Calls f with every module of a static chain, from its head on.
template <class M, class F>
void each(M& m, F&& f) {
    f(m);
    if constexpr (is_static<M>) each(m.backward(), f);
}

struct Config {
    int amp[8], mark[8], freq[8], taps[8], limit[8];
    int inputs, vary;
    bool stalls, worker[3];
};

template <class M>
void configure(M& m, const Config& c, int k) {
    if constexpr (requires { m.set_start_freq(1.0); }) {
        m.set_start_freq(c.freq[k]);
        m.set_size(c.taps[k]);
    } else if constexpr (requires { m.max_size(std::size_t{1}); }) {
        m.max_size(static_cast<std::size_t>(c.limit[k]));
    } else if constexpr (std::is_same_v<M, Src>) {
        m.id = 7;
        m.vary = c.vary;
        m.stalls = c.stalls;
    } else if constexpr (requires { m.blocks; m.syncs; }) {
        m.id = c.mark[k];
    } else if constexpr (requires { m.get_value(); m.set_value(1.0); }) {
        m.set_value(c.amp[k]);
    }
}

// The dynamic counterpart of a static module.
template <maecm B> std::unique_ptr<BaseModule> twin(AmplitudeScale<B>&, const Config& c, int k) { auto p = std::make_unique<AmplitudeScale<>>(); configure(*p, c, k); return p; }
template <maecm B> std::unique_ptr<BaseModule> twin(AmplitudeAdd<B>&, const Config& c, int k) { auto p = std::make_unique<AmplitudeAdd<>>(); configure(*p, c, k); return p; }
template <maecm B> std::unique_ptr<BaseModule> twin(SincFilter<B>&, const Config& c, int k) { auto p = std::make_unique<SincFilter<>>(); configure(*p, c, k); return p; }
template <maecm B> std::unique_ptr<BaseModule> twin(Mark<B>&, const Config& c, int k) { auto p = std::make_unique<Mark<>>(); configure(*p, c, k); return p; }
std::unique_ptr<BaseModule> twin(ParallelModule&, const Config& c, int k) { auto p = std::make_unique<ParallelModule>(); configure(*p, c, k); return p; }
std::unique_ptr<BaseModule> twin(UniformBuffer&, const Config&, int) { return std::make_unique<UniformBuffer>(); }
std::unique_ptr<BaseModule> twin(ModuleMixDown&, const Config&, int) { return std::make_unique<ModuleMixDown>(); }
std::unique_ptr<BaseModule> twin(Src&, const Config& c, int k) { auto p = std::make_unique<Src>(); configure(*p, c, k); return p; }

/// What lies behind the last static part: sources, perhaps on workers of their own.
struct Rest {
    std::vector<std::unique_ptr<ParallelModule>> pars;
    std::vector<std::unique_ptr<Src>> srcs;
    std::vector<BaseModule*> all;
    void hang(BaseModule* last, const Config& c, int inputs) {
        for (int i = 0; i < inputs; ++i) {
            BaseModule* at = last;
            if (c.worker[i]) {
                pars.push_back(std::make_unique<ParallelModule>());
                pars.back()->max_size(static_cast<std::size_t>(c.limit[i]));
                all.push_back(pars.back().get());
                at = at->link(pars.back().get());
            }
            srcs.push_back(std::make_unique<Src>());
            Src& s = *srcs.back();
            configure(s, c, 0);
            s.id = i;
            all.push_back(&s);
            at->link(&s);
        }
    }
};

struct Step {
    int pulls;
    bool resync;
};
struct Plan {
    int block, channels;
    double rate;
    std::vector<Step> sessions;
    bool finish;
};
struct Record {
    std::vector<double> audio;
    std::vector<int64_t> facts;
    std::vector<const char*> what;
    void fact(int64_t v, const char* w) {
        facts.push_back(v);
        what.push_back(w);
    }
};

/// Plays a chain as planned and notes everything that can be seen of it.
template <class S>
Record play(S& sink, const std::vector<BaseModule*>& mods, const Plan& p) {
    Record r;
    sink.get_chain_info()->buffer_size = p.block;
    sink.get_chain_info()->channels = p.channels;
    sink.get_chain_info()->sample_rate = p.rate;
    auto states = [&](const char* w) {
        for (auto* m : mods) r.fact(static_cast<int64_t>(m->get_state()), w);
        r.fact(static_cast<int64_t>(sink.get_state()), w);
    };
    auto infos = [&] {
        r.fact(sink.get_chain_info()->module_num, "number of modules");
        for (auto* m : mods) {
            r.fact(m->get_info()->out_buffer, "block size of a module");
            r.fact(m->get_info()->channels, "channels of a module");
            r.fact(static_cast<int64_t>(m->get_info()->sample_rate), "sample rate of a module");
            r.fact(m->get_chain_info() == sink.get_chain_info(), "agreement with the chain");
            r.fact(m->forward() != nullptr, "what is in front of a module");
        }
    };
    by_anyone([&] { sink.meta_info_sync(); });
    infos();
    for (const Step& s : p.sessions) {
        if (s.resync) {
            by_anyone([&] { sink.meta_info_sync(); });
            infos();
        }
        by_anyone([&] { sink.meta_start(); });
        states("state after the start");
        for (int i = 0; i < s.pulls; ++i) {
            by_anyone([&] { sink.meta_process(); });
            AudioBuffer b(sink.get_buffer());
            r.fact(static_cast<int64_t>(b.size()), "size of a block");
            r.fact(static_cast<int64_t>(b.channels()), "channels of a block");
            r.fact(static_cast<int64_t>(b.get_samplerate()), "sample rate of a block");
            for (std::size_t k = 0; k < b.size(); ++k) r.audio.push_back(b.at(k));
        }
        by_anyone([&] { sink.meta_stop(); });
        states("state after the stop");
    }
    if (p.finish) {
        int before = sink.get_chain_info()->module_finish;
        sink.meta_finish();
        states("state after finishing");
        r.fact(sink.get_chain_info()->module_finish - before, "number of finished modules");
    }
    return r;
}

template <class S>
void compare(S& sink, Config& c, Plan& p, bool configured = false) {
    constexpr bool headless = std::is_same_v<S, SinkModule<>>;
    std::vector<BaseModule*> mods;
    std::vector<Mark<>*> twin_marks;
    std::vector<std::unique_ptr<BaseModule>> twins;
    (void)headless;
    SinkModule<> ref;
    Rest rest, ref_rest;
    std::vector<BaseModule*> ref_mods;
    // counters of the marks, in order
    std::vector<std::function<std::vector<int>()>> marks, ref_marks;
    BaseModule* last = nullptr;
    BaseModule* at = &ref;
    int k = 0;
    bool own_source = false, mix = false;
    each(sink, [&](auto& m) {
        using M = std::remove_reference_t<decltype(m)>;
        last = &m;
        if constexpr (!std::is_same_v<M, S>) {
            if (!configured) configure(m, c, k);
            mods.push_back(&m);
            twins.push_back(twin(m, c, k));
            at = at->link(twins.back().get());
            ref_mods.push_back(at);
            own_source |= std::is_same_v<M, Src>;
            mix |= std::is_same_v<M, ModuleMixDown>;
            if constexpr (requires { m.syncs; }) {
                marks.push_back([&m] { return std::vector<int>{m.starts, m.stops, m.finishes, m.syncs, m.blocks}; });
                auto* t = dynamic_cast<Mark<>*>(at);
                ref_marks.push_back([t] { return std::vector<int>{t->starts, t->stops, t->finishes, t->syncs, t->blocks}; });
            }
            ++k;
        }
    });
    if (!own_source) {
        int n = mix ? c.inputs : 1;
        rest.hang(last, c, n);
        ref_rest.hang(at, c, n);
        mods.insert(mods.end(), rest.all.begin(), rest.all.end());
        ref_mods.insert(ref_mods.end(), ref_rest.all.begin(), ref_rest.all.end());
    }
    Record a = play(sink, mods, p);
    Record b = play(ref, ref_mods, p);
    if (a.facts.size() != b.facts.size()) sim::fail("differs", "%zu observations instead of %zu", a.facts.size(), b.facts.size());
    for (std::size_t i = 0; i < a.facts.size(); ++i)
        if (a.facts[i] != b.facts[i])
            sim::fail("differs", "%s is %lld in the static chain and %lld in the linked one (observation %zu)", a.what[i], (long long)a.facts[i], (long long)b.facts[i], i);
    for (std::size_t i = 0; i < a.audio.size(); ++i)
        if (a.audio[i] != b.audio[i]) sim::fail("wrong-audio", "sample %zu is %.17g in the static chain and %.17g in the linked one", i, a.audio[i], b.audio[i]);
    for (std::size_t i = 0; i < marks.size(); ++i)
        if (marks[i]() != ref_marks[i]())
            for (int j = 0; j < 5; ++j)
                if (marks[i]()[j] != ref_marks[i]()[j]) {
                    static const char* w[] = {"started", "stopped", "asked to finish", "synced", "processed"};
                    sim::fail("differs", "module %zu of the static chain is %s %d times, %d in the linked one", i, w[j], marks[i]()[j], ref_marks[i]()[j]);
                }
    sim::log("%zu samples, %zu observations", a.audio.size(), a.facts.size());
}

// A static chain that is itself linked into a chain.
template <class Head>
void inside(Config& c, Plan& p, bool on_worker) {
    struct Pair {
        ParallelModule front, ref_front;
    };
    Head head;
    SinkModule<> sink, ref;
    Rest rest, ref_rest;
    Pair par;
    par.front.max_size(static_cast<std::size_t>(c.limit[7]));
    par.ref_front.max_size(static_cast<std::size_t>(c.limit[7]));
    std::vector<BaseModule*> mods, ref_mods;
    std::vector<std::unique_ptr<BaseModule>> twins;
    BaseModule *at = &sink, *rat = &ref;
    if (on_worker) {
        at = at->link(&par.front);
        rat = rat->link(&par.ref_front);
        mods.push_back(at);
        ref_mods.push_back(rat);
    }
    at->link(&head);
    BaseModule* last = nullptr;
    int k = 0;
    bool own_source = false;
    each(head, [&](auto& m) {
        last = &m;
        configure(m, c, k);
        mods.push_back(&m);
        twins.push_back(twin(m, c, k));
        rat = rat->link(twins.back().get());
        ref_mods.push_back(rat);
        own_source |= std::is_same_v<std::remove_reference_t<decltype(m)>, Src>;
        ++k;
    });
    if (!own_source) {
        rest.hang(last, c, 1);
        ref_rest.hang(rat, c, 1);
        mods.insert(mods.end(), rest.all.begin(), rest.all.end());
        ref_mods.insert(ref_mods.end(), ref_rest.all.begin(), ref_rest.all.end());
    }
    Record a = play(sink, mods, p);
    Record b = play(ref, ref_mods, p);
    if (a.facts != b.facts)
        for (std::size_t i = 0; i < a.facts.size() && i < b.facts.size(); ++i)
            if (a.facts[i] != b.facts[i])
                sim::fail("differs", "%s is %lld with a static part and %lld without (observation %zu)", a.what[i], (long long)a.facts[i], (long long)b.facts[i], i);
    if (a.audio.size() != b.audio.size()) sim::fail("differs", "%zu samples with a static part, %zu without", a.audio.size(), b.audio.size());
    for (std::size_t i = 0; i < a.audio.size(); ++i)
        if (a.audio[i] != b.audio[i]) sim::fail("wrong-audio", "sample %zu is %.17g with a static part and %.17g without", i, a.audio[i], b.audio[i]);
    sim::log("%zu samples, %zu observations", a.audio.size(), a.facts.size());
    sim::probe("inside-a-linked-chain");
}

void composed() {
    sim::set_budget(100000000);
    Config c;
    for (int i = 0; i < 8; ++i) {
        c.amp[i] = static_cast<int>(draw(9)) - 4;
        c.mark[i] = static_cast<int>(draw(100));
        c.freq[i] = 100 + static_cast<int>(draw(3000));
        c.taps[i] = 2 + 2 * static_cast<int>(draw(12));
        c.limit[i] = 1 + static_cast<int>(draw(4));
    }
    c.inputs = 1 + static_cast<int>(draw(3, "inputs"));
    c.stalls = draw(2, "slow source");
    for (bool& w : c.worker) w = draw(2, "worker");
    Plan p;
    p.block = 1 + upto(12, 600, "block");
    p.channels = 1 + static_cast<int>(draw(3, "channels"));
    static const int rates[] = {8000, 44100, 22050};
    p.rate = rates[draw(3)];
    p.finish = draw(2, "finish");
    int n = 1 + static_cast<int>(draw(3, "sessions"));
    for (int i = 0; i < n; ++i) p.sessions.push_back({upto(6, 100), draw(3) == 2});
    int type = static_cast<int>(draw(9, "type"));
    // a mixer wants blocks of the size of the chain
    c.vary = type != 7 && draw(2, "varying blocks") ? 1 + p.block * 2 : 0;
    if (n > 1) sim::probe("played-again");
    if (p.channels > 1) sim::probe("several-channels");
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("a statically composed chain is played");
    switch (type) {
        case 0: {
            SinkModule<AmplitudeScale<AmplitudeAdd<Src>>> s;
            compare(s, c, p);
            break;
        }
        case 1: {
            SinkModule<Mark<AmplitudeScale<Mark<ParallelModule>>>> s;
            compare(s, c, p);
            sim::probe("worker");
            break;
        }
        case 2: {
            SinkModule<SincFilter<AmplitudeAdd<Mark<SincFilter<ParallelModule>>>>> s;
            compare(s, c, p);
            sim::probe("worker");
            sim::probe("filter");
            break;
        }
        case 3: {
            SinkModule<Mark<Mark<>>> s;
            compare(s, c, p);
            break;
        }
        case 4: inside<AmplitudeScale<Mark<AmplitudeAdd<ParallelModule>>>>(c, p, draw(2)); break;
        case 5:
            inside<AmplitudeAdd<SincFilter<AmplitudeScale<Src>>>>(c, p, true);
            sim::probe("on-a-worker");
            break;
        case 6: {
            SinkModule<Mark<UniformBuffer>> s;
            compare(s, c, p);
            sim::probe("rebuffered");
            break;
        }
        case 7: {
            SinkModule<AmplitudeScale<Mark<ModuleMixDown>>> s;
            compare(s, c, p);
            sim::probe("mixer");
            break;
        }
        default: {
            // parts that are made elsewhere and moved into their place
            // with everything that was set there
            SinkModule<AmplitudeScale<Mark<Src>>> s;
            auto settle = [&](auto& part) {
                int k = 0;
                each(part, [&](auto& m) { configure(m, c, k++); });
            };
            if (draw(2, "from another chain")) {
                SinkModule<AmplitudeScale<Mark<Src>>> other;
                other.get_chain_info()->buffer_size = 1 + static_cast<int>(draw(20));
                other.get_chain_info()->channels = 1 + static_cast<int>(draw(3));
                by_anyone([&] { other.meta_info_sync(); });
                settle(other.backward());
                s.link_static(std::move(other.backward()));
                s.backward().backward().syncs = 0;
                sim::probe("moved-from-another-chain");
            } else {
                AmplitudeScale<Mark<Src>> part;
                settle(part);
                s.link_static(std::move(part));
            }
            compare(s, c, p, true);
            sim::probe("moved-into-place");
            break;
        }
    }
    sim::nontrivial();
}
sim::Reg r25("P25", "composed", composed);

}  // namespace
