// Chains that are taken apart and put together differently between sessions (P26).
#include <algorithm>
#include <cmath>
#include <string>

#include "common.hpp"

#include "amp_module.hpp"
#include "filter_module.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;

class Head : public SinkModule<> {};

// What is kept about a part lives in harness variables (it may run on a worker).
enum { STARTS, STOPS, SYNCS, CALLS };
int64_t var(int id, int what) { return sim::get(MOD + 4 * id + what); }
void bump(int id, int what) { sim::add(MOD + 4 * id + what, 1); }

double number(int id, int64_t start, int64_t t, int c) {
    uint32_t x = static_cast<uint32_t>(t * 5 + c * 3 + start * 77 + id * 1031);
    x = x * 2654435761u + 99;
    x ^= x >> 15;
    return static_cast<double>(static_cast<int>(x % 4001) - 2000) + static_cast<double>(x >> 12) / 1048576;
}

template <class Base>
class Told : public Base {
public:
    using Base::Base;
    int id = 0;
    void start() override {
        Base::start();
        bump(id, STARTS);
    }
    void stop() override {
        Base::stop();
        bump(id, STOPS);
    }
    void info_sync() override {
        Base::info_sync();
        bump(id, SYNCS);
    }
    void process() override {
        Base::process();
        bump(id, CALLS);
    }
};
class RawSource : public SourceModule {
public:
    bool stalls = false;
    int64_t t = 0;
    int which = 0;
    void start() override {
        SourceModule::start();
        t = 0;
    }
    void process() override {
        if (stalls && sim::fault("slow-upstream", 1, 5)) sim::settle(1000000LL * (1 + draw(30)));
        this->reserve();
        int c = static_cast<int>(buff.channels());
        int64_t s = var(which, STARTS);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = number(which, s, t + static_cast<int64_t>(i) / c, static_cast<int>(i) % c);
        t += static_cast<int64_t>(buff.size()) / c;
    }
};
class RawPlain : public AudioModule<> {};
class RawFilter : public BaseConvFilter<> {
public:
    std::vector<double> taps;
    void generate_kernel() override {
        BufferPointer k = std::make_unique<AudioBuffer>(taps.size(), 1);
        for (std::size_t i = 0; i < taps.size(); ++i) k->at(i) = taps[i];
        this->set_kernel(std::move(k));
    }
};
// its output is its input plus its parameter
class RawKnob : public ParamModule<1> {
public:
    ModuleParam p;
    RawKnob() : ParamModule<1>(&p) {}
    void process() override {
        AudioBuffer x(p.get());
        if (x.size() != buff.size()) sim::fail("wrong-size", "a parameter has %zu values for a block of %zu samples", x.size(), buff.size());
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) += x.at(i);
    }
};

struct Part {
    enum Kind { SOURCE, PLAIN, SCALE, ADD, FILTER, WORKER, MIXER, METER, KNOB } kind = PLAIN;
    int id = -1;  // of what is counted
    std::unique_ptr<BaseModule> mod;
    ModuleParam* param = nullptr;
    Part* control = nullptr;  // what is behind the parameter
    double g = 0;
    std::vector<double> taps;
    std::vector<Part*> up;
    int64_t starts = 0, stops = 0, syncs = 0, calls = 0;  // what it should have been told

    double at(int64_t t, int c) const {
        switch (kind) {
            case SOURCE: return number(id, starts, t, c);
            case SCALE: return g * up[0]->at(t, c);
            case ADD: return g + up[0]->at(t, c);
            case FILTER: {
                double v = 0;
                for (std::size_t j = 0; j < taps.size() && static_cast<int64_t>(j) <= t; ++j) v += taps[j] * up[0]->at(t - static_cast<int64_t>(j), c);
                return v;
            }
            case MIXER: {
                double v = 0;
                for (auto* u : up) v += u->at(t, c);
                return v;
            }
            case KNOB: return up[0]->at(t, c) + (control ? control->at(t, c) : g);
            default: return up[0]->at(t, c);
        }
    }
};

struct Bench {
    std::vector<std::unique_ptr<Part>> parts;
    std::unique_ptr<Told<Head>> head;
    Part* first = nullptr;  // behind the head
    int ids = 0, workers = 0;

    Part* make(Part::Kind k) {
        auto p = std::make_unique<Part>();
        p->kind = k;
        auto count = [&](auto m) {
            m->id = p->id = ids++;
            p->mod = std::move(m);
        };
        switch (k) {
            case Part::SOURCE: {
                auto m = std::make_unique<Told<RawSource>>();
                m->stalls = draw(2);
                m->which = ids;
                count(std::move(m));
                break;
            }
            case Part::PLAIN: count(std::make_unique<Told<RawPlain>>()); break;
            case Part::SCALE: {
                p->g = draw(2) ? 2.0 : -0.5;
                auto m = std::make_unique<Told<AmplitudeScale<>>>();
                m->set_value(p->g);
                count(std::move(m));
                break;
            }
            case Part::ADD: {
                p->g = static_cast<double>(draw(100)) - 50;
                auto m = std::make_unique<Told<AmplitudeAdd<>>>();
                m->set_value(p->g);
                count(std::move(m));
                break;
            }
            case Part::FILTER: {
                auto m = std::make_unique<Told<RawFilter>>();
                for (int n = 1 + static_cast<int>(draw(4)); n > 0; --n) p->taps.push_back(static_cast<double>(draw(7)) - 3);
                m->taps = p->taps;
                count(std::move(m));
                break;
            }
            case Part::WORKER: {
                auto m = std::make_unique<ParallelModule>();
                m->max_size(1 + draw(3));
                p->mod = std::move(m);
                ++workers;
                sim::probe("worker");
                break;
            }
            case Part::MIXER: count(std::make_unique<Told<ModuleMixDown>>()); break;
            case Part::METER: count(std::make_unique<Told<LatencyModule>>()); break;
            case Part::KNOB: {
                auto m = std::make_unique<Told<RawKnob>>();
                p->param = &m->p;
                p->g = static_cast<double>(draw(50));
                m->p.set_constant(p->g);
                count(std::move(m));
                break;
            }
        }
        parts.push_back(std::move(p));
        return parts.back().get();
    }
    bool room() const { return ids < 40 && parts.size() < 50; }
    Part::Kind stage() {
        static const Part::Kind kinds[] = {Part::PLAIN, Part::SCALE, Part::ADD, Part::FILTER, Part::WORKER, Part::MIXER, Part::METER, Part::KNOB};
        auto k = kinds[draw(8, "part")];
        return k == Part::WORKER && workers >= 5 ? Part::PLAIN : k;
    }
    Part* grow(int depth) {
        if (depth == 0 || !room() || draw(4) == 3) return make(Part::SOURCE);
        Part* p = make(stage());
        int n = p->kind == Part::MIXER ? 1 + static_cast<int>(draw(3, "inputs")) : 1;
        for (int i = 0; i < n; ++i) attach(p, grow(depth - 1));
        if (p->kind == Part::KNOB && draw(2)) control(p, grow(depth - 1));
        return p;
    }
    // u becomes an input of the mixer p, or what is behind any other p
    void attach(Part* p, Part* u) {
        p->mod->link(u->mod.get());
        if (p->kind != Part::MIXER) p->up.clear();
        p->up.push_back(u);
    }
    void control(Part* p, Part* u) {
        p->param->link(u->mod.get());
        p->control = u;
    }
    void behind_head(Part* u) {
        head->link(u->mod.get());
        first = u;
    }
    void each(Part* p, const std::function<void(Part*)>& f) {
        f(p);
        for (auto* u : p->up) each(u, f);
        if (p->control) each(p->control, f);
    }
    std::vector<Part*> used() {
        std::vector<Part*> r;
        each(first, [&](Part* p) { r.push_back(p); });
        return r;
    }
    void destroy(Part* p) {
        if (p->kind == Part::WORKER) --workers;
        parts.erase(std::find_if(parts.begin(), parts.end(), [&](auto& q) { return q.get() == p; }));
    }
    // A part that is no longer needed is destroyed now or at the end, in any order.
    void drop(const std::vector<Part*>& gone) {
        if (draw(3) == 2) {
            sim::probe("kept-aside");
            return;
        }
        std::vector<Part*> v = gone;
        while (!v.empty()) {
            auto i = draw(static_cast<uint32_t>(v.size()));
            destroy(v[i]);
            v.erase(v.begin() + i);
        }
        sim::probe("destroyed-after-removal");
    }
    void rewire() {
        auto u = used();
        // places where one part is directly behind another (or the head)
        std::vector<Part*> singles;
        for (auto* p : u)
            if (p->kind != Part::SOURCE && p->kind != Part::MIXER) singles.push_back(p);
        auto place = [&]() -> Part* {  // nullptr: the head
            auto i = draw(static_cast<uint32_t>(singles.size() + 1), "place");
            return i ? singles[i - 1] : nullptr;
        };
        auto behind = [&](Part* p) { return p ? p->up[0] : first; };
        auto put = [&](Part* p, Part* x) {
            if (p)
                attach(p, x);
            else
                behind_head(x);
        };
        switch (draw(8, "change")) {
            case 0: {  // a new part is put in between
                if (!room()) return;
                Part* p = place();
                Part* x = make(stage());
                Part* old = behind(p);
                if (x->kind == Part::MIXER || draw(2)) {
                    put(p, x);
                    attach(x, old);
                } else {
                    attach(x, old);
                    put(p, x);
                }
                sim::probe("inserted");
                break;
            }
            case 1: {  // a part is taken out
                Part* p = place();
                Part* x = behind(p);
                if (x->kind == Part::SOURCE || x->kind == Part::MIXER || x->control) return;
                put(p, x->up[0]);
                drop({x});
                sim::probe("removed");
                break;
            }
            case 2: {  // something else is put behind a part
                if (!room()) return;
                Part* p = place();
                Part* old = behind(p);
                put(p, grow(2));
                std::vector<Part*> gone;
                each(old, [&](Part* q) { gone.push_back(q); });
                drop(gone);
                sim::probe("replaced");
                break;
            }
            case 3: {  // two places exchange what is behind them
                Part* p = place();
                Part* q = place();
                if (p == q) return;
                // neither may be part of what is behind the other
                bool nested = false;
                each(behind(p), [&](Part* z) { nested = nested || z == q; });
                each(behind(q), [&](Part* z) { nested = nested || z == p; });
                if (nested) return;
                Part* a = behind(p);
                Part* b = behind(q);
                put(p, b);
                put(q, a);
                sim::probe("exchanged");
                break;
            }
            case 4: {  // another input for a mixer
                if (!room()) return;
                for (auto* p : u)
                    if (p->kind == Part::MIXER && draw(2) && p->up.size() < 5) {
                        attach(p, grow(1));
                        sim::probe("input-added");
                        break;
                    }
                break;
            }
            case 5: {  // everything is put behind another end
                auto next = std::make_unique<Told<Head>>();
                next->id = 60;
                *next->get_chain_info() = *head->get_chain_info();
                auto old = std::move(head);
                head = std::move(next);
                behind_head(first);
                old.reset();
                sim::probe("moved-to-another-end");
                break;
            }
            case 6: {  // a part is played on its own and put back where it was
                Part* p = place();
                Part* x = behind(p);
                audition(x);
                put(p, x);
                sim::probe("taken-out-and-back");
                break;
            }
            default: {  // a parameter gets another control chain, or a constant
                for (auto* p : u) {
                    if (p->kind != Part::KNOB || draw(2)) continue;
                    Part* old = p->control;
                    if (draw(2) || !room()) {
                        p->g = static_cast<double>(draw(50));
                        p->param->set_constant(p->g);
                        p->control = nullptr;
                    } else {
                        control(p, grow(1));
                    }
                    if (old) {
                        std::vector<Part*> gone;
                        each(old, [&](Part* q) { gone.push_back(q); });
                        drop(gone);
                    }
                    sim::probe("control-exchanged");
                    break;
                }
            }
        }
    }
    // Pulls blocks from an end that has x behind it.
    void play(Head& end, Part* x, int pulls, int s) {
        const int block = end.get_chain_info()->buffer_size, channels = end.get_chain_info()->channels;
        const double rate = end.get_chain_info()->sample_rate;
        int64_t t = 0;
        for (int i = 0; i < pulls; ++i) {
            if (sim::fault("slow-consumer", 1, 5)) sim::settle(1000000LL * (1 + draw(60)));
            by_anyone([&] { end.meta_process(); });
            AudioBuffer got(end.get_buffer());
            if (got.size() != static_cast<std::size_t>(block) * channels || static_cast<int>(got.channels()) != channels || got.get_samplerate() != rate)
                sim::fail("wrong-shape", "a block has %zu samples in %d channels at %g instead of %d frames of %d channels at %g", got.size(), (int)got.channels(), got.get_samplerate(), block, channels, rate);
            for (std::size_t k = 0; k < got.size(); ++k) {
                double want = x->at(t + static_cast<int64_t>(k) / channels, static_cast<int>(k) % channels);
                if (std::fabs(got.at(k) - want) > 1e-9 * (1 + std::fabs(want)))
                    sim::fail("wrong-audio", "frame %lld of channel %d in session %d is %.12g, the parts of the chain make it %.12g", (long long)(t + static_cast<int64_t>(k) / channels), (int)(k % channels), s, got.at(k), want);
            }
            t += block;
        }
    }
    // What is behind a place is put behind an end of its own for a while.
    void audition(Part* x) {
        std::vector<Part*> u;
        each(x, [&](Part* q) { u.push_back(q); });
        Told<Head> ear;
        ear.id = 61;
        auto* ci = ear.get_chain_info();
        ci->channels = 1 + static_cast<int>(draw(3, "channels"));
        ci->buffer_size = 1 + static_cast<int>(draw(20, "block size"));
        ci->sample_rate = draw(2) ? 8000 : 22050;
        ear.link(x->mod.get());
        ear.meta_info_sync();
        for (auto* q : u) ++q->syncs;
        check("after the sync of a part of it");
        if (draw(2)) {
            by_anyone([&] { ear.meta_start(); });
            for (auto* q : u) ++q->starts;
            play(ear, x, static_cast<int>(draw(3)), -1);
            by_anyone([&] { ear.meta_stop(); });
            for (auto* q : u) ++q->stops;
            check("after a part of it was played");
            for (auto* q : u)
                if (q->id >= 0) q->calls = var(q->id, CALLS);
        }
    }
    void check(const char* when) {
        for (auto& p : parts) {
            if (p->id < 0) continue;
            struct {
                const char* what;
                int v;
                int64_t want;
            } c[] = {{"started", STARTS, p->starts}, {"stopped", STOPS, p->stops}, {"synced", SYNCS, p->syncs}};
            for (auto& x : c)
                if (var(p->id, x.v) != x.want) sim::fail("wrong-reach", "%s a part was %s %lld times instead of %lld", when, x.what, (long long)var(p->id, x.v), (long long)x.want);
        }
    }
};

void rewired() {
    sim::set_budget(100000000);
    Bench b;
    b.head = std::make_unique<Told<Head>>();
    b.head->id = 60;
    int channels = 1, block = 1;
    b.behind_head(b.grow(4));
    int sessions = 2 + static_cast<int>(draw(5, "sessions"));
    sim::schedule_mode(-1, 0);
    sim::race_detection(draw(3) == 2);
    sim::begin_hang_watch("a rewired chain is played");
    bool changed = true;
    for (int s = 0; s < sessions; ++s) {
        if (s > 0)
            for (int n = static_cast<int>(draw(4, "changes")); n > 0; --n) {
                b.rewire();
                changed = true;
            }
        auto used = b.used();
        if (changed || draw(2)) {
            channels = 1 + static_cast<int>(draw(3, "channels"));
            block = 1 + upto(20, 800, "block size");
            auto* ci = b.head->get_chain_info();
            ci->channels = channels;
            ci->buffer_size = block;
            ci->sample_rate = draw(2) ? 8000 : 44100;
            by_anyone([&] { b.head->meta_info_sync(); });
            for (auto* p : used) ++p->syncs;
            b.check("after a sync");
            // (the constant behind a parameter counts too, parameters have chains of their own)
            int n = 1;
            std::function<void(Part*)> count = [&](Part* p) {
                ++n;
                for (auto* x : p->up) count(x);
            };
            count(b.first);
            if (ci->module_num != n) sim::fail("wrong-number", "a chain of %d modules counts %d", n, ci->module_num);
            for (auto* p : used)
                if (p->mod->get_info()->channels != channels || p->mod->get_info()->out_buffer != block || p->mod->get_info()->sample_rate != ci->sample_rate)
                    sim::fail("wrong-info", "a part expects %d channels at %g Hz in blocks of %d, the chain has %d at %g in blocks of %d", p->mod->get_info()->channels,
                              static_cast<double>(p->mod->get_info()->sample_rate), p->mod->get_info()->out_buffer, channels, static_cast<double>(ci->sample_rate), block);
            changed = false;
        }
        by_anyone([&] { b.head->meta_start(); });
        for (auto* p : used) ++p->starts;
        b.check("after a start");
        int pulls = static_cast<int>(draw(7, "pulls"));
        b.play(*b.head, b.first, pulls, s);
        by_anyone([&] { b.head->meta_stop(); });
        for (auto* p : used) ++p->stops;
        b.check("after a stop");
        if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive after stop", sim::live_threads());
        if (!b.workers)
            for (auto* p : used) {
                p->calls += pulls;
                // (scaling and adding call their own processing directly)
                if (p->kind != Part::SCALE && p->kind != Part::ADD && var(p->id, CALLS) != p->calls) sim::fail("wrong-reach", "a part was processed %lld times instead of %lld", (long long)var(p->id, CALLS), (long long)p->calls);
            }
        for (auto* p : used)
            if (p->id >= 0) p->calls = var(p->id, CALLS);
        for (auto& p : b.parts)
            if (p->id >= 0 && var(p->id, CALLS) != p->calls) sim::fail("wrong-reach", "a part that does not belong to the chain was processed");
        sim::log("session %d: %zu parts, %d pulls of %d frames", s, used.size(), pulls, block);
        if (s) sim::probe("played-again");
    }
    // the end and the parts go in any order
    if (draw(2)) b.head.reset();
    while (!b.parts.empty()) b.parts.erase(b.parts.begin() + draw(static_cast<uint32_t>(b.parts.size())));
    if (channels > 1) sim::probe("several-channels");
    sim::nontrivial();
}
sim::Reg r26("P26", "rewired", rewired);
}  // namespace
