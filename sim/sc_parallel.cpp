// Scenarios for the parallel stage (P01..P06): the worker threads, their
// interleaving with consumers and controllers, stalls, spurious wake-ups.
#include "common.hpp"

#include "amp_module.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"

#include <system_error>

namespace {
using namespace h;
using sim::draw;
using sim::range;

struct Shape {
    int frames = 4, channels = 1;
    bool vary = false, vary_rate = false, gaps = false;  // gaps: some blocks hold nothing
    double rate = 8000;
    int frames_at(int64_t n) const { return gaps && (n * 5 + frames) % 3 == 1 ? 0 : vary ? frames + static_cast<int>((n * 7) % 5) : frames; }
    int channels_at(int64_t n) const { return vary ? 1 + static_cast<int>((n * 3 + channels) % 3) : channels; }
    double rate_at(int64_t n) const { return vary || vary_rate ? rate + static_cast<double>(n) : rate; }
};

/// Source whose nth buffer is a pure function of n; may stall while working.
class Src : public SourceModule {
public:
    int id = 0;
    Shape shape;
    int64_t n = 0;
    bool stalls = true;
    bool long_stall = false;
    int64_t done_at = -1;  // declares itself done at this buffer, and goes on

    void process() override {
        sim::add(STARTED, 1);
        if (stalls && sim::fault("slow-upstream", 1, 3)) sim::settle(long_stall ? 5000000000LL : 1000000 + 1000000LL * draw(20));
        AudioBuffer b(shape.frames_at(n), shape.channels_at(n), shape.rate_at(n));
        for (std::size_t i = 0; i < b.size(); ++i) b.at(i) = value(id, n, i);
        if (n == done_at) this->done();
        ++n;
        this->set_buffer(std::move(b));
        sim::add(PRODUCED, 1);
    }
};

class Sink : public SinkModule<> {};

struct Tree {
    std::vector<std::unique_ptr<BaseModule>> parallels;  // destroyed first
    std::vector<std::unique_ptr<BaseModule>> mods;
    int sources = 0;
    int stages = 0;
    bool mixing = false;
    Shape shape;
    using Fn = std::function<double(int64_t, std::size_t)>;

    ~Tree() { parallels.clear(); }

    template <class T, class... A>
    T* make(A&&... a) {
        auto p = std::make_unique<T>(std::forward<A>(a)...);
        T* r = p.get();
        mods.push_back(std::move(p));
        return r;
    }

    // Builds a subtree behind `front` and returns what it must deliver.
    Fn build(BaseModule* front, int depth) {
        BaseModule* at = front;
        std::vector<int> ops;  // applied from the back: remembered front to back
        int len = 1 + static_cast<int>(draw(3, "stages"));
        for (int i = 0; i < len; ++i) {
            int k = static_cast<int>(draw(5));
            if (stages == 0 && i == 0) k = 0;
            if (k <= 1 && parallels.size() < 5) {
                auto p = std::make_unique<ParallelModule>();
                if (draw(6) != 5) p->max_size(1 + upto(4, 200, "read-ahead limit"));  // (or as it comes)
                at->link(p.get());
                at = p.get();
                parallels.push_back(std::move(p));
                ++stages;
            } else if (k == 2) {
                auto* m = make<AmplitudeScale<>>(2.0);
                at->link(m);
                at = m;
                ops.push_back(1);
            } else if (k == 3) {
                auto* m = make<AmplitudeAdd<>>(5.0);
                at->link(m);
                at = m;
                ops.push_back(2);
            } else {
                auto* m = make<AudioModule<>>();
                at->link(m);
                at = m;
            }
        }
        Fn base;
        if (mixing && depth > 0 && draw(2, "mix")) {
            auto* mix = make<ModuleMixDown>();
            at->link(mix);
            int k = 1 + static_cast<int>(draw(3, "inputs"));
            std::vector<Fn> in;
            for (int i = 0; i < k; ++i) in.push_back(build(mix, depth - 1));
            base = [in](int64_t n, std::size_t i) {
                double s = 0;
                for (const auto& f : in) s += f(n, i);
                return s;
            };
        } else {
            auto* s = make<Src>();
            s->id = sources++;
            s->shape = shape;
            if (draw(4, "done early") == 3) s->done_at = draw(8);
            at->link(s);
            int id = s->id;
            base = [id](int64_t n, std::size_t i) { return value(id, n, i); };
        }
        return [base, ops](int64_t n, std::size_t i) {
            double v = base(n, i);
            for (auto it = ops.rbegin(); it != ops.rend(); ++it) v = *it == 1 ? v * 2.0 : v + 5.0;
            return v;
        };
    }
};

void check_buffer(const AudioBuffer& b, const Shape& sh, int64_t n, const Tree::Fn& want) {
    auto frames = sh.frames_at(n);
    auto ch = sh.channels_at(n);
    std::size_t size = static_cast<std::size_t>(frames) * ch;
    if (b.size() != size) sim::fail("wrong-buffer", "delivery %lld has %zu samples, expected %zu", (long long)n, b.size(), size);
    if (static_cast<int>(b.channels()) != ch) sim::fail("wrong-buffer", "delivery %lld has %d channels, expected %d", (long long)n, (int)b.channels(), ch);
    if (b.get_samplerate() != sh.rate_at(n)) sim::fail("wrong-buffer", "delivery %lld has sample rate %g, expected %g", (long long)n, b.get_samplerate(), sh.rate_at(n));
    for (std::size_t i = 0; i < size; ++i)
        if (b.at(i) != want(n, i)) sim::fail("wrong-sample", "delivery %lld sample %zu is %.17g, expected %.17g", (long long)n, i, b.at(i), want(n, i));
}

// ---------------------------------------------------------------- P01
void transparent() {
    sim::set_budget(100000000);
    Tree t;
    t.mixing = draw(3, "graph") == 2;
    t.shape.frames = 1 + upto(6, 1500, "frames");
    t.shape.channels = 1 + static_cast<int>(draw(2, "channels"));
    int varying = t.mixing ? 0 : static_cast<int>(draw(3, "varying buffers"));
    t.shape.vary = varying == 1;
    t.shape.vary_rate = varying == 2;
    t.shape.gaps = !t.mixing && draw(4, "empty blocks") == 3;
    if (t.shape.gaps) sim::probe("empty-blocks");
    bool keeps = draw(2, "the sink keeps its block");
    auto sink = std::make_unique<Sink>();
    sink->get_chain_info()->buffer_size = t.shape.frames;
    sink->get_chain_info()->channels = t.shape.channels;
    sink->get_chain_info()->sample_rate = t.shape.rate;
    auto want = t.build(sink.get(), 2);
    sink->meta_info_sync();
    sim::schedule_mode(-1, 0);
    sink->meta_start();
    int pulls = 1 + upto(12, 300, "pulls");
    for (int n = 0; n < pulls; ++n) {
        if (sim::fault("slow-consumer", 1, 4)) sim::settle(1000000 + 1000000LL * draw(40));
        if (t.parallels.size() && draw(8) == 7)
            dynamic_cast<ParallelModule*>(t.parallels[draw(t.parallels.size())].get())->max_size(1 + draw(4, "new limit"));
        sink->meta_process();
        AudioBuffer b(sink->get_buffer());
        check_buffer(b, t.shape, n, want);
        // (a consumer that only looked at the block, and left it where it was)
        if (keeps && draw(4) != 3) sink->set_buffer(std::move(b));
        sim::log("delivered %d", n);
    }
    sink->meta_stop();
    if (t.stages > 1) sim::probe("nested-parallel");
    if (t.mixing) sim::probe("mixed-parallel");
    sink.reset();
}
sim::Reg r1("P01", "transparent", transparent, 1);

// ---------------------------------------------------------------- P02
class BoundSrc : public Src {
public:
    void process() override {
        int64_t ahead = sim::get(STARTED) + 1 - sim::get(REQUESTED);
        int64_t lim = sim::get(LIMIT);
        if (sim::get(LOWERED) && sim::get(PREV_LIMIT) > lim) lim = sim::get(PREV_LIMIT);
        if (ahead > lim)
            sim::fail("read-ahead-exceeded", "upstream works on a buffer %lld ahead of the consumer, the limit is %lld", (long long)ahead, (long long)lim);
        Src::process();
        sim::set(LOWERED, 0);
        sim::set(PREV_LIMIT, sim::get(LIMIT));
    }
};

void set_limit(ParallelModule& p, int64_t n) {
    int64_t old = sim::get(LIMIT);
    if (n > old) {
        sim::set(LIMIT, n);
        p.max_size(static_cast<std::size_t>(n));
    } else if (n < old) {
        if (!sim::get(LOWERED) || sim::get(PREV_LIMIT) < old) sim::set(PREV_LIMIT, old);
        sim::set(LOWERED, 1);
        p.max_size(static_cast<std::size_t>(n));
        sim::set(LOWERED, 1);
        sim::set(LIMIT, n);
    }
    if (static_cast<int64_t>(p.max_size()) != n) sim::fail("limit-not-kept", "the limit reads back as %zu after it was set to %lld", p.max_size(), (long long)n);
    sim::log("limit %lld", (long long)n);
}

void pull_checked(ParallelModule& p, int id) {
    int64_t n = sim::get(CONSUMED);
    sim::add(REQUESTED, 1);
    sim::begin_hang_watch("a consumer waits for a buffer");
    p.meta_process();
    sim::end_hang_watch();
    AudioBuffer b(p.get_buffer());
    sim::add(CONSUMED, 1);
    if (b.size() == 0 || b.at(0) != value(id, n, 0)) sim::fail("wrong-buffer", "pull %lld did not deliver buffer %lld", (long long)n, (long long)n);
    sim::log("pulled %lld", (long long)n);
}

void backpressure() {
    sim::set_budget(200000000);
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<BoundSrc>();
    auto par = std::make_unique<ParallelModule>();
    src->shape.frames = 2;
    sink->link(par.get())->link(src.get());
    sink->meta_info_sync();
    int64_t limit = draw(4) == 3 ? 6 + upto(6, 400, "limit") : draw(5, "limit");
    if (draw(6) == 5)
        limit = static_cast<int64_t>(par->max_size());  // as it comes
    else
        par->max_size(static_cast<std::size_t>(limit));
    sim::set(LIMIT, limit);
    sim::set(PREV_LIMIT, limit);
    sim::schedule_mode(-1, 0);
    par->meta_start();
    int ops = 2 + static_cast<int>(draw(14, "operations"));
    for (int i = 0; i < ops; ++i) {
        switch (draw(5, "operation")) {
            case 0:
                if (sim::get(LIMIT) > 0 || par->size() > 0) pull_checked(*par, 0);
                break;
            case 1:
                for (int k = 0; k < 3; ++k)
                    if (sim::get(LIMIT) > 0) pull_checked(*par, 0);
                break;
            case 2: {
                // an idle consumer: the stage must fill up to its limit, no further
                sim::settle(60000000000LL);
                int64_t have = static_cast<int64_t>(par->size());
                int64_t lim = sim::get(LIMIT);
                if (have < lim) sim::fail("no-refill", "idle for a minute with %lld of %lld buffers ready", (long long)have, (long long)lim);
                if (sim::get(PRODUCED) - sim::get(CONSUMED) != have)
                    sim::fail("wrong-size", "stage reports %lld buffers, %lld were produced and not consumed", (long long)have, (long long)(sim::get(PRODUCED) - sim::get(CONSUMED)));
                sim::log("idle %lld", (long long)have);
                sim::probe("idle-fill-checked");
                break;
            }
            case 3: set_limit(*par, upto(7, 150, "new limit")); break;
            case 4: {
                int64_t s = static_cast<int64_t>(par->size());
                if (s > sim::get(PRODUCED) - sim::get(CONSUMED)) sim::fail("wrong-size", "stage reports more buffers than exist");
                break;
            }
        }
    }
    // Progress: whatever happened, with a positive limit buffers keep coming.
    if (sim::get(LIMIT) == 0) set_limit(*par, 1 + draw(3));
    for (int k = 0; k < 3; ++k) pull_checked(*par, 0);
    par->meta_stop();
}
sim::Reg r2("P02", "backpressure", backpressure, 3);

// A consumer already waiting on a stage whose limit is raised from zero by
// another thread.
void raise_limit_concurrently() {
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<BoundSrc>();
    auto par = std::make_unique<ParallelModule>();
    src->shape.frames = 1;
    sink->link(par.get())->link(src.get());
    sink->meta_info_sync();
    par->max_size(0);
    sim::schedule_mode(-1, 0);
    par->meta_start();
    int n = 1 + static_cast<int>(draw(4));
    std::thread consumer([&] {
        for (int i = 0; i < n; ++i) pull_checked(*par, 0);
    });
    if (draw(2)) sim::settle(1000000);
    if (sim::get(STARTED) != 0) sim::fail("read-ahead-exceeded", "upstream was processed although the limit is zero");
    set_limit(*par, 1 + draw(3));
    if (draw(2)) set_limit(*par, 1 + draw(6));
    sim::begin_hang_watch("a consumer waits for a buffer after the limit was raised");
    consumer.join();
    sim::end_hang_watch();
    par->meta_stop();
}
sim::Reg r2b("P02", "raise_limit", raise_limit_concurrently, 1);

// Two stages in a row: the upstream one may run ahead by both limits, the pull
// each stage may have in hand, and no more.
class NestedSrc : public Src {
public:
    int64_t lim = 0;
    void process() override {
        int64_t ahead = sim::get(STARTED) + 1 - sim::get(REQUESTED);
        if (ahead > lim) sim::fail("read-ahead-exceeded", "upstream works %lld buffers ahead of the consumer, both limits allow %lld", (long long)ahead, (long long)lim);
        Src::process();
    }
};
void nested_backpressure() {
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<NestedSrc>();
    auto a = std::make_unique<ParallelModule>();
    auto b = std::make_unique<ParallelModule>();
    src->shape.frames = 1;
    sink->link(a.get())->link(b.get())->link(src.get());
    sink->meta_info_sync();
    int la = 1 + static_cast<int>(draw(4)), lb = 1 + static_cast<int>(draw(4));
    a->max_size(la);
    b->max_size(lb);
    src->lim = la + lb;
    sim::schedule_mode(-1, 0);
    a->meta_start();
    int ops = 1 + static_cast<int>(draw(8));
    for (int i = 0; i < ops; ++i) {
        if (draw(2)) {
            pull_checked(*a, 0);
        } else {
            sim::settle(60000000000LL);
            if (static_cast<int>(a->size()) != la || static_cast<int>(b->size()) != lb)
                sim::fail("no-refill", "idle stages hold %zu of %d and %zu of %d buffers", a->size(), la, b->size(), lb);
            sim::probe("idle-fill-checked");
        }
    }
    a->meta_stop();
}
sim::Reg r2c("P02", "nested_backpressure", nested_backpressure, 1);

// ---------------------------------------------------------------- P03
class StopSrc : public Src {
public:
    void process() override {
        if (sim::get(STOPPED)) sim::fail("processing-after-stop", "upstream processing began after stop had returned");
        sim::set(IN_PROCESS, 1);
        Src::process();
        sim::set(IN_PROCESS, 0);
        if (sim::get(STOPPED)) sim::fail("processing-after-stop", "upstream processing was still going on after stop had returned");
    }
};

void check_all_quiet(int expect_threads, const char* when) {
    int64_t before = sim::get(STARTED);
    sim::settle(60000000000LL);
    if (sim::get(STARTED) != before) sim::fail("processing-after-stop", "upstream was still being processed %s", when);
    if (sim::live_threads() > expect_threads) sim::fail("worker-left-running", "%d threads are alive %s, expected %d", sim::live_threads(), when, expect_threads);
}

void shutdown() {
    sim::set_budget(200000000);
    sim::begin_hang_watch("a parallel chain is being stopped");
    auto sink = std::make_unique<Sink>();
    std::vector<std::unique_ptr<StopSrc>> srcs;
    std::vector<std::unique_ptr<ParallelModule>> par;
    std::unique_ptr<ModuleMixDown> mix;
    int kind = static_cast<int>(draw(3, "topology"));  // 0 single, 1 nested, 2 mixer
    sink->get_chain_info()->buffer_size = 2;
    auto mkpar = [&] {
        par.push_back(std::make_unique<ParallelModule>());
        par.back()->max_size(1 + upto(3, 60));
        return par.back().get();
    };
    auto mksrc = [&] {
        srcs.push_back(std::make_unique<StopSrc>());
        srcs.back()->shape.frames = 2;
        srcs.back()->id = static_cast<int>(srcs.size()) - 1;
        srcs.back()->long_stall = draw(2);
        return srcs.back().get();
    };
    ParallelModule* top = mkpar();
    sink->link(top);
    if (kind == 0) {
        top->link(mksrc());
    } else if (kind == 1) {
        top->link(mkpar())->link(mksrc());
    } else {
        mix = std::make_unique<ModuleMixDown>();
        top->link(mix.get());
        mix->link(mkpar())->link(mksrc());
        mix->link(mksrc());
    }
    sink->meta_info_sync();
    sim::schedule_mode(-1, 0);

    if (draw(6) == 5) {
        sim::probe("stop-before-start");
        top->stop();
    }
    int rounds = 1 + static_cast<int>(draw(3, "rounds"));
    bool destroyed_running = false;
    for (int r = 0; r < rounds && !destroyed_running; ++r) {
        sim::set(STOPPED, 0);
        sim::set(QUIT, 0);
        top->meta_start();
        std::thread consumer;
        bool threaded = draw(2, "consumer on its own thread");
        if (threaded) {
            consumer = std::thread([&] {
                while (!sim::get(QUIT)) {
                    top->meta_process();
                    AudioBuffer b(top->get_buffer());
                    if (draw(2))
                        sim::yield();
                    else
                        sim::settle(1000000);
                }
            });
        } else {
            int k = static_cast<int>(draw(4));
            for (int i = 0; i < k; ++i) {
                top->meta_process();
                AudioBuffer b(top->get_buffer());
            }
        }
        if (draw(3, "other limits") == 2) {
            // the limits change while everything runs
            sim::probe("limit-changed-before-stop");
            if (draw(2)) sim::settle(1 + draw(30000000));
            for (auto& p : par)
                if (draw(3)) p->max_size(1 + (draw(2) ? 0 : draw(4)));
        }
        int wait = static_cast<int>(draw(4, "when to stop"));
        if (wait == 1) sim::settle(1 + draw(30000000));
        if (wait == 2)
            for (int i = static_cast<int>(draw(40)); i > 0; --i) sim::yield();
        if (wait == 3) sim::settle(threaded ? 4000000LL : 120000000000LL);
        int how = static_cast<int>(draw(4, "how to stop"));
        if (threaded) sim::set(QUIT, 1);
        if (how == 3 && !threaded && kind == 0) {
            // destroy the running stage instead of stopping it
            sim::probe("destroyed-while-running");
            sim::begin_hang_watch("a running parallel stage is being destroyed");
            par.clear();
            sim::set(STOPPED, 1);
            check_all_quiet(1, "after the stage was destroyed");
            destroyed_running = true;
        } else if (how == 2 && !threaded && kind == 0) {
            // restart without an explicit stop
            sim::probe("start-while-running");
            if (draw(2))
                top->meta_start();
            else
                top->start();
            top->meta_stop();
            sim::set(STOPPED, 1);
            check_all_quiet(1, "after a start, a start and a stop");
        } else {
            top->meta_stop();
            sim::set(STOPPED, 1);
            sim::log("stopped");
            if (threaded) {
                sim::begin_hang_watch("a consumer of a stopped stage should be released");
                consumer.join();
                sim::begin_hang_watch("a parallel chain is being stopped");
            }
            check_all_quiet(1, "after stop returned");
            if (draw(3) == 2) top->meta_stop();
            // pulling from a stopped stage never blocks
            sim::begin_hang_watch("pulling from a stopped stage");
            for (int i = 0; i < 6; ++i) {
                top->meta_process();
                AudioBuffer b(top->get_buffer());
            }
            sim::begin_hang_watch("a parallel chain is being stopped");
        }
        sim::log("round %d", r);
    }
    sim::begin_hang_watch("a stopped parallel chain is being destroyed");
    par.clear();
    if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive at the end", sim::live_threads());
}
sim::Reg r3("P03", "shutdown", shutdown, 4);

// Several threads wait for a stage that was never started, or that has ended a
// session; whoever stops it releases all of them.
void waiting() {
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<StopSrc>();
    auto par = std::make_unique<ParallelModule>();
    sink->link(par.get())->link(src.get());
    sink->meta_info_sync();
    src->shape.frames = 2;
    par->max_size(1 + draw(3));
    sim::schedule_mode(-1, 0);
    bool meta = draw(2);
    std::vector<std::thread> consumers;
    int n = 1 + static_cast<int>(draw(4, "waiting consumers"));
    for (int i = 0; i < n; ++i) consumers.emplace_back([&] { par->meta_process(); });
    if (draw(2)) sim::settle(1 + draw(30000000));
    for (int i = static_cast<int>(draw(20)); i > 0; --i) sim::yield();
    sim::begin_hang_watch("a stage that was never started is stopped while consumers wait");
    if (meta)
        par->meta_stop();
    else
        par->stop();
    for (auto& t : consumers) t.join();
    sim::set(STOPPED, 1);
    check_all_quiet(1, "after stop returned");
    if (n > 1) sim::probe("several-wait-at-stop");
    sim::set(STOPPED, 0);
    sim::begin_hang_watch("a stage is started after it released its consumers");
    par->meta_start();
    for (int i = 0; i < 3; ++i) {
        par->meta_process();
        AudioBuffer b(par->get_buffer());
        if (b.size() == 0 || b.at(0) != value(0, i, 0)) sim::fail("wrong-buffer", "pull %d did not deliver buffer %d", i, i);
    }
    par->meta_stop();
    sim::set(STOPPED, 1);
    check_all_quiet(1, "after stop returned");
}
sim::Reg r3d("P03", "waiting", waiting, 1);

// The upstream module itself stops the stage from the worker thread.
class SelfStop : public StopSrc {
public:
    ParallelModule* target = nullptr;
    int64_t at = 0;
    void process() override {
        Src::process();
        if (n == at) target->stop();
    }
};
void self_stop() {
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<SelfStop>();
    auto par = std::make_unique<ParallelModule>();
    sink->link(par.get())->link(src.get());
    sink->meta_info_sync();
    src->target = par.get();
    src->at = 1 + draw(5);
    src->shape.frames = 1;
    par->max_size(1 + draw(3));
    sim::begin_hang_watch("upstream stops its own stage");
    sim::schedule_mode(-1, 0);
    par->meta_start();
    int64_t got = 0;
    for (int i = 0; i < 12; ++i) {
        par->meta_process();
        AudioBuffer b(par->get_buffer());
        if (b.size()) {
            if (b.at(0) != value(0, got, 0)) sim::fail("wrong-buffer", "delivery %lld is not buffer %lld", (long long)got, (long long)got);
            ++got;
        }
    }
    check_all_quiet(1, "after upstream stopped its stage");
    if (src->n != src->at) sim::fail("processing-after-stop", "upstream was processed %lld times, it stopped the stage in call %lld", (long long)src->n, (long long)src->at);
    par->meta_stop();
    par.reset();
}
sim::Reg r3b("P03", "self_stop", self_stop, 1);

// The system refuses to create a worker: starting fails, stopping still works,
// and so does the next session.
void refused_worker() {
    auto sink = std::make_unique<Sink>();
    std::vector<std::unique_ptr<StopSrc>> srcs;
    std::vector<std::unique_ptr<ParallelModule>> par;
    ModuleMixDown mix;
    int kind = static_cast<int>(draw(3, "topology"));  // 0 single, 1 in a row, 2 mixer
    sink->get_chain_info()->buffer_size = 2;
    auto mkpar = [&] {
        par.push_back(std::make_unique<ParallelModule>());
        par.back()->max_size(1 + upto(3, 60));
        return par.back().get();
    };
    auto mksrc = [&] {
        srcs.push_back(std::make_unique<StopSrc>());
        srcs.back()->shape.frames = 2;
        srcs.back()->id = static_cast<int>(srcs.size()) - 1;
        return srcs.back().get();
    };
    auto* top = mkpar();
    sink->link(top);
    if (kind == 0) {
        top->link(mksrc());
    } else if (kind == 1) {
        auto* at = top;
        for (int i = 1 + static_cast<int>(draw(3)); i > 0; --i) {
            auto* p = mkpar();
            at->link(p);
            at = p;
        }
        at->link(mksrc());
    } else {
        top->link(&mix);
        for (int i = 1 + static_cast<int>(draw(3)); i > 0; --i) mix.link(mkpar())->link(mksrc());
    }
    sink->meta_info_sync();
    sim::schedule_mode(-1, 0);
    int rounds = 1 + static_cast<int>(draw(3, "rounds"));
    for (int r = 0; r <= rounds; ++r) {
        sim::set(STOPPED, 0);
        sim::rt_thread_faults = r < rounds;  // the last session meets no refusal
        bool refused = false;
        sim::begin_hang_watch("a chain whose workers are refused is started");
        try {
            sink->meta_start();
        } catch (const std::system_error&) {
            refused = true;
        }
        sim::rt_thread_faults = false;
        if (refused) {
            sim::probe("worker-refused");
            if (draw(4) == 3 && kind == 0) {
                par.clear();
                check_all_quiet(1, "after a stage that got no worker was destroyed");
                return;
            }
        } else {
            int pulls = static_cast<int>(draw(4));
            if (r == rounds) ++pulls;
            std::vector<int64_t> first;
            for (int i = 0; i < pulls; ++i) {
                sim::begin_hang_watch("a consumer waits for a buffer");
                sink->meta_process();
                AudioBuffer b(sink->get_buffer());
                if (b.size() != 2) sim::fail("wrong-buffer", "session %d: pull %d delivered %zu samples", r, i, b.size());
            }
        }
        if (draw(3) == 2) sim::settle(1000000LL * draw(60));
        sim::begin_hang_watch("a chain whose workers were refused is stopped");
        sink->meta_stop();
        sim::set(STOPPED, 1);
        check_all_quiet(1, "after stop returned");
        sim::begin_hang_watch("pulling from a stopped chain");
        for (int i = static_cast<int>(draw(4)); i > 0; --i) {
            sink->meta_process();
            AudioBuffer b(sink->get_buffer());
        }
        sim::log("round %d refused %d", r, refused);
        sim::nontrivial();
    }
    par.clear();
    if (sim::live_threads() != 1) sim::fail("worker-left-running", "%d threads are alive at the end", sim::live_threads());
}
sim::Reg r3c("P03", "refused_worker", refused_worker, 1);

// ---------------------------------------------------------------- P04
class SessionSrc : public SourceModule {
public:
    int64_t session = 0, n = 0;
    int stall = 0;
    void start() override {
        AudioModule<>::start();
        ++session;
        n = 0;
        sim::set(PRODUCED, 0);
    }
    void process() override {
        if (sim::fault("slow-upstream", 1, 3)) sim::settle(1000000 + 1000000LL * draw(20));
        AudioBuffer b(2, 1, 1000.0);
        b.at(0) = static_cast<double>(session);
        b.at(1) = static_cast<double>(n++);
        this->set_buffer(std::move(b));
        sim::add(PRODUCED, 1);
    }
};
void restart_history() {
    sim::set_budget(200000000);
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<SessionSrc>();
    std::vector<std::unique_ptr<ParallelModule>> par;
    sink->get_chain_info()->buffer_size = 2;
    int depth = 1 + static_cast<int>(draw(5) == 4);
    BaseModule* at = sink.get();
    for (int i = 0; i < depth; ++i) {
        par.push_back(std::make_unique<ParallelModule>());
        par.back()->max_size(1 + upto(4, 60, "limit"));
        at = at->link(par.back().get());
    }
    at->link(src.get());
    sink->meta_info_sync();
    sim::schedule_mode(-1, 0);
    ParallelModule& top = *par[0];
    sim::begin_hang_watch("a parallel chain is used over several sessions");
    auto pull = [&](int64_t sess, int64_t want) {
        sink->meta_process();
        AudioBuffer b(sink->get_buffer());
        if (b.size() != 2) sim::fail("lost-buffer", "session %lld: pull %lld delivered %zu samples", (long long)sess, (long long)want, b.size());
        if (b.at(0) != static_cast<double>(sess))
            sim::fail("stale-buffer", "session %lld: pull %lld delivered a buffer of session %g", (long long)sess, (long long)want, b.at(0));
        if (b.at(1) != static_cast<double>(want)) sim::fail("wrong-buffer", "session %lld: pull %lld delivered buffer %g", (long long)sess, (long long)want, b.at(1));
    };
    int sessions = 1 + static_cast<int>(draw(4, "sessions"));
    for (int64_t s = 1; s <= sessions; ++s) {
        sink->meta_start();
        int64_t taken = 0;
        int k = upto(6, 60, "pulls");
        for (int i = 0; i < k; ++i) {
            if (draw(4) == 3) sim::settle(1000000LL * draw(100));
            pull(s, taken++);
        }
        if (draw(2)) sim::settle(1000000LL * draw(100));
        sink->meta_stop();
        sim::log("session %lld: %lld pulled", (long long)s, (long long)taken);
        if (depth == 1) {
            // what was processed and not delivered stays available, in order
            int64_t left = static_cast<int64_t>(top.size());
            if (left != sim::get(PRODUCED) - taken)
                sim::fail("lost-buffer", "session %lld: %lld buffers were processed, %lld pulled, %lld remain after stop", (long long)s, (long long)sim::get(PRODUCED), (long long)taken, (long long)left);
            if (sim::get(PRODUCED) == taken && draw(2)) sim::settle(1000000);
            int64_t d = draw(3) == 0 ? 0 : range(0, left, "drained after stop");
            for (int64_t i = 0; i < d; ++i) pull(s, taken++);
            if (d) sim::probe("drained-after-stop");
            if (static_cast<int64_t>(top.size()) != left - d) sim::fail("lost-buffer", "%zu buffers remain after draining %lld of %lld", top.size(), (long long)d, (long long)left);
            if (left - d > 0) sim::probe("restart-with-leftovers");
        }
    }
}
sim::Reg r4("P04", "restart_history", restart_history, 1);

// Several sessions of a chain with worker threads before, behind and between
// mixers; a new session may also begin without a stop in between.
void restart_tree() {
    sim::set_budget(200000000);
    Sink sink;
    std::vector<std::unique_ptr<BaseModule>> keep;
    std::vector<std::unique_ptr<ParallelModule>> par;
    int sources = 0;
    auto thread = [&](BaseModule* at) -> BaseModule* {
        for (int i = static_cast<int>(draw(3, "stages")); i > 0 && par.size() < 5; --i) {
            par.push_back(std::make_unique<ParallelModule>());
            par.back()->max_size(1 + upto(4, 60, "limit"));
            at = at->link(par.back().get());
        }
        return at;
    };
    std::function<void(BaseModule*, int)> grow = [&](BaseModule* at, int depth) {
        at = thread(at);
        if (depth > 0 && draw(2, "mixer")) {
            auto m = std::make_unique<ModuleMixDown>();
            at->link(m.get());
            for (int i = 1 + static_cast<int>(draw(2)); i > 0; --i) grow(m.get(), depth - 1);
            keep.push_back(std::move(m));
        } else {
            auto m = std::make_unique<SessionSrc>();
            at->link(m.get());
            keep.push_back(std::move(m));
            ++sources;
        }
    };
    sink.get_chain_info()->buffer_size = 2;
    grow(&sink, 2);
    sink.meta_info_sync();
    sim::schedule_mode(-1, 0);
    sim::begin_hang_watch("a chain with worker threads is used over several sessions");
    int sessions = 2 + static_cast<int>(draw(4, "sessions"));
    for (int64_t s = 1; s <= sessions; ++s) {
        sink.meta_start();
        int k = upto(6, 100, "pulls");
        for (int64_t i = 0; i < k; ++i) {
            if (draw(4) == 3) sim::settle(1000000LL * draw(100));
            if (par.size() && draw(8) == 7) par[draw(par.size())]->max_size(1 + draw(5, "new limit"));
            sink.meta_process();
            AudioBuffer b(sink.get_buffer());
            if (b.size() != 2) sim::fail("lost-buffer", "session %lld: pull %lld delivered %zu samples", (long long)s, (long long)i, b.size());
            if (b.at(0) != static_cast<double>(s * sources) || b.at(1) != static_cast<double>(i * sources))
                sim::fail("stale-buffer", "session %lld: pull %lld of %d mixed sources delivered the sum of sessions %g, of numbers %g", (long long)s, (long long)i, sources, b.at(0), b.at(1));
        }
        if (draw(2)) sim::settle(1000000LL * draw(100));
        if (draw(4) == 3)
            sim::probe("restarted-without-stop");
        else
            sink.meta_stop();
        sim::log("session %lld: %d pulled", (long long)s, k);
    }
    par.clear();
}
sim::Reg r4b("P04", "restart_tree", restart_tree, 1);

// ---------------------------------------------------------------- P05
class StateMod : public AudioModule<> {
public:
    int slot = 0;
    bool source = false;
    int busy() const { return MOD + 8 * slot; }
    void enter(const char* what) {
        if (sim::get(busy()) & 1) sim::fail("state-overlaps-processing", "%s of an upstream module ran while that module was processing", what);
    }
    void start() override {
        enter("start");
        sim::add(busy() + 2, 1);
        sim::yield();
        AudioModule<>::start();
        if (sim::get(busy()) & 1) sim::fail("state-overlaps-processing", "an upstream module was processed before its start returned");
        sim::set(busy() + 1, 1);
        sim::add(busy() + 2, -1);
    }
    void stop() override {
        enter("stop");
        sim::set(busy() + 1, 0);
        sim::add(busy() + 2, 1);
        sim::yield();
        AudioModule<>::stop();
        enter("stop");
        sim::add(busy() + 2, -1);
    }
    void work() {
        if (sim::get(busy() + 2)) sim::fail("state-overlaps-processing", "an upstream module was processed while it was being started or stopped");
        if (!sim::get(busy() + 1)) sim::fail("processing-while-stopped", "an upstream module was processed although it is not started");
        sim::set(busy(), 1);
        if (sim::fault("slow-upstream", 1, 3)) sim::settle(1000000 + 1000000LL * draw(20));
        sim::yield();
        sim::set(busy(), 0);
    }
    void process() override { work(); }
};
class StateSrc : public StateMod {
public:
    void meta_process() override {
        this->reserve(2, 1);
        this->process();
    }
    void meta_start() override { this->start(); }
    void meta_stop() override { this->stop(); }
    void meta_info_sync() override { this->info_sync(); }
    void meta_finish() override { this->finish(); }
};
void state_ops() {
    auto sink = std::make_unique<Sink>();
    sink->get_chain_info()->buffer_size = 2;
    std::vector<std::unique_ptr<BaseModule>> keep;
    std::vector<std::unique_ptr<ParallelModule>> par;
    int slots = 0;
    auto newpar = [&] {
        par.push_back(std::make_unique<ParallelModule>());
        par.back()->max_size(1 + draw(3));
        return par.back().get();
    };
    std::function<void(BaseModule*, int)> grow = [&](BaseModule* at, int depth) {
        int mids = static_cast<int>(draw(3));
        for (int i = 0; i < mids; ++i) {
            auto m = std::make_unique<StateMod>();
            m->slot = slots++;
            at = at->link(m.get());
            keep.push_back(std::move(m));
        }
        int k = depth > 0 ? static_cast<int>(draw(3, "shape")) : 0;
        if (k == 1) {
            auto* p = newpar();
            at->link(p);
            grow(p, depth - 1);
        } else if (k == 2) {
            auto m = std::make_unique<ModuleMixDown>();
            auto* mp = m.get();
            at->link(mp);
            keep.push_back(std::move(m));
            int n = 1 + static_cast<int>(draw(2));
            for (int i = 0; i < n; ++i) grow(mp, depth - 1);
        } else {
            auto m = std::make_unique<StateSrc>();
            m->slot = slots++;
            at->link(m.get());
            keep.push_back(std::move(m));
        }
    };
    auto* top = newpar();
    sink->link(top);
    grow(top, 2);
    sink->meta_info_sync();
    sim::race_detection(draw(2));
    sim::schedule_mode(-1, 0);
    sim::begin_hang_watch("a parallel chain is started and stopped");
    int rounds = 1 + static_cast<int>(draw(3));
    for (int r = 0; r < rounds; ++r) {
        sink->meta_start();
        int k = static_cast<int>(draw(5));
        for (int i = 0; i < k; ++i) sink->meta_process();
        if (draw(3) == 2) sim::settle(1000000LL * draw(60));
        for (int i = static_cast<int>(draw(12)); i > 0; --i) sim::yield();
        if (r + 1 < rounds && draw(3, "no stop") == 2)
            sim::probe("restarted-without-stop");
        else
            sink->meta_stop();
        sim::log("round %d", r);
    }
    par.clear();
}
sim::Reg r5("P05", "state_ops", state_ops, 1);

// ---------------------------------------------------------------- P06
void sane_level(std::size_t n) {
    if (n > 1000) sim::fail("wrong-size", "a level of %zu was reported, the highest limit ever was 4", n);
}

void races() {
    auto sink = std::make_unique<Sink>();
    auto src = std::make_unique<Src>();
    auto par = std::make_unique<ParallelModule>();
    auto par2 = std::make_unique<ParallelModule>();
    bool nested = draw(3) == 2;
    src->shape.frames = 1 + static_cast<int>(draw(3));
    src->shape.vary = draw(2);
    if (nested)
        sink->link(par.get())->link(par2.get())->link(src.get());
    else
        sink->link(par.get())->link(src.get());
    sink->meta_info_sync();
    par->max_size(1 + draw(3));
    par2->max_size(1 + draw(3));
    sim::race_detection(true);
    sim::schedule_mode(-1, 0);
    sim::begin_hang_watch("a parallel stage is used from several threads");
    int monitors = static_cast<int>(draw(3, "observer threads"));
    sim::set(QUIT, 0);
    auto setup = [&] {
        std::vector<std::thread> v;
        for (int m = 0; m < monitors; ++m)
            v.emplace_back([&] {
                for (int i = 0; i < 60 && !sim::get(QUIT); ++i) {
                    switch (draw(4)) {
                        // (looking at the results also keeps the compiler from dropping the calls)
                        case 0: sane_level(par->size()); break;
                        case 1: sane_level(par->max_size()); break;
                        case 2: par->max_size(1 + draw(4)); break;
                        case 3:
                            if (nested) sane_level(par2->size());
                            break;
                    }
                    sim::yield();
                }
            });
        return v;
    };
    bool around = draw(2, "observers outlive sessions");
    std::vector<std::thread> mon;
    if (around) mon = setup();
    int rounds = 1 + static_cast<int>(draw(2));
    int64_t base = 0;
    for (int r = 0; r < rounds; ++r) {
        par->meta_start();
        if (!around) mon = setup();
        int pulls = static_cast<int>(draw(6));
        bool threaded = draw(2);
        auto consume = [&](int n) {
            for (int i = 0; i < n; ++i) {
                par->meta_process();
                AudioBuffer b(par->get_buffer());
                auto want = base + i;
                if (b.size() == 0 || b.at(0) != value(0, want, 0)) sim::fail("wrong-buffer", "session %d: delivery %d is damaged", r, i);
                for (std::size_t k = 0; k < b.size(); ++k)
                    if (b.at(k) != value(0, want, k)) sim::fail("wrong-sample", "session %d: delivery %d sample %zu is damaged", r, i, k);
            }
        };
        if (threaded) {
            std::thread c(consume, pulls);
            c.join();
        } else {
            consume(pulls);
        }
        sim::set(QUIT, around ? 0 : 1);
        par->meta_stop();
        base = src->n;
        sim::log("round %d consumed %d", r, pulls);
        if (!around) {
            for (auto& t : mon) t.join();
            mon.clear();
            sim::set(QUIT, 0);
        }
    }
    sim::set(QUIT, 1);
    for (auto& t : mon) t.join();
}
sim::Reg r6("P06", "races", races, 1);

}  // namespace
