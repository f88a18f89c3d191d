// Timing of chains with worker threads (P29, P30): simulated time passes only while
// every thread waits or works, so the moment a block arrives is an exact
// function of what the parts cost, whatever the schedule. The model is the
// max-plus recurrence of a pipeline with bounded queues.
#include "alsa_sim.hpp"
#include "common.hpp"

#include "io/alsa_module.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;

constexpr int64_t MS = 1000000;

/// What block n costs at part id, in ns; drawn before the run.
struct Costs {
    std::vector<std::vector<int64_t>> of;
    int64_t base = 0;
    int frames = 2;
    double rate = 8000;
    int64_t at(int id, int64_t n) const {
        const auto& c = of[static_cast<std::size_t>(id)];
        return c[static_cast<std::size_t>(n) % c.size()];
    }
    int add() {
        // (mostly even; sometimes bursts: one expensive block now and then)
        std::vector<int64_t> c(1 + draw(4));
        for (auto& x : c) x = draw(4) == 3 ? 0 : base * (1 + draw(9));
        if (draw(3) == 2) c[0] = base * 40;
        of.push_back(std::move(c));
        return static_cast<int>(of.size()) - 1;
    }
};
Costs* costs;

inline int busy(int id) { return MOD + 8 * id; }

/// Works for as long as its plan says, and then passes its block on.
class Work : public AudioModule<> {
public:
    int id = 0;
    int64_t n = 0;
    void process() override {
        sim::set(busy(id), 1);
        sim::settle(costs->at(id, n++));
        sim::set(busy(id), 0);
    }
    void start() override { n = 0; }
};
class Make : public SourceModule {
public:
    int id = 0;
    int64_t n = 0;
    void process() override {
        sim::set(busy(id), 1);
        sim::settle(costs->at(id, n));
        AudioBuffer b(static_cast<std::size_t>(costs->frames), 1, costs->rate);
        for (std::size_t i = 0; i < b.size(); ++i) b.at(i) = static_cast<double>((n + static_cast<int64_t>(i)) % 64) / 1024.0;
        ++n;
        this->set_buffer(std::move(b));
        sim::set(busy(id), 0);
    }
    void start() override { n = 0; }
};

/// When blocks arrive: pull(t) is asked at time t and returns the moment the
/// block is there. Called in the order of the blocks.
struct Node {
    virtual ~Node() = default;
    virtual int64_t pull(int64_t t) = 0;
    virtual void start(int64_t t) = 0;
};
struct SerialNode : Node {
    int id;
    int64_t n = 0;
    std::vector<std::unique_ptr<Node>> in;
    explicit SerialNode(int i) : id(i) {}
    int64_t pull(int64_t t) override {
        for (auto& x : in) t = x->pull(t);
        return id < 0 ? t : t + costs->at(id, n++);
    }
    void start(int64_t t) override {
        n = 0;
        for (auto& x : in) x->start(t);
    }
};
struct WorkerNode : Node {
    std::size_t limit;
    int64_t began = 0, finished = 0;
    std::vector<int64_t> taken;
    std::unique_ptr<Node> in;
    explicit WorkerNode(std::size_t l) : limit(l) {}
    int64_t pull(int64_t t) override {
        std::size_t k = taken.size();
        int64_t s = std::max(finished, k >= limit ? taken[k - limit] : began);
        finished = in->pull(s);
        taken.push_back(std::max(t, finished));
        return taken.back();
    }
    void start(int64_t t) override {
        began = finished = t;
        taken.clear();
        in->start(t);
    }
};

struct Plan {
    std::vector<std::unique_ptr<BaseModule>> workers, mods;
    std::vector<ParallelModule*> stages;
    int sources = 0;
    ~Plan() { workers.clear(); }

    template <class T>
    T* make() {
        auto p = std::make_unique<T>();
        T* r = p.get();
        mods.push_back(std::move(p));
        return r;
    }
    std::unique_ptr<Node> build(BaseModule* at, int depth, int len) {
        if (len > 0) {
            int k = static_cast<int>(draw(3, "part"));
            if (k <= 1 && stages.size() < 5) {
                auto p = std::make_unique<ParallelModule>();
                auto limit = static_cast<std::size_t>(1 + upto(4, 60, "limit"));
                p->max_size(limit);
                at->link(p.get());
                auto node = std::make_unique<WorkerNode>(limit);
                stages.push_back(p.get());
                BaseModule* next = p.get();
                workers.push_back(std::move(p));
                node->in = build(next, depth, len - 1);
                return node;
            }
            auto* w = make<Work>();
            w->id = costs->add();
            at->link(w);
            auto node = std::make_unique<SerialNode>(w->id);
            node->in.push_back(build(w, depth, len - 1));
            return node;
        }
        if (depth > 0 && draw(3, "mix") == 2) {
            auto* m = make<ModuleMixDown>();
            at->link(m);
            auto node = std::make_unique<SerialNode>(-1);
            int k = 1 + static_cast<int>(draw(3, "inputs"));
            for (int i = 0; i < k; ++i) node->in.push_back(build(m, depth - 1, static_cast<int>(draw(3))));
            return node;
        }
        auto* s = make<Make>();
        s->id = costs->add();
        ++sources;
        at->link(s);
        return std::make_unique<SerialNode>(s->id);
    }
};

class End : public SinkModule<> {};

// ---------------------------------------------------------------- P29
void overlap() {
    sim::set_budget(100000000);
    Costs c;
    c.base = (10 + draw(200, "unit of cost")) * MS;
    costs = &c;
    Plan p;
    auto sink = std::make_unique<End>();
    sink->get_chain_info()->buffer_size = 2;
    sink->get_chain_info()->channels = 1;
    sink->get_chain_info()->sample_rate = 8000;
    auto model = p.build(sink.get(), 1, 1 + static_cast<int>(draw(4, "parts")));
    sink->meta_info_sync();
    sim::schedule_mode(-1, 0);
    int sessions = 1 + static_cast<int>(draw(3, "sessions"));
    bool watched = draw(3, "watched") == 2;
    int64_t worst = 0;  // the most that can be in the works at one moment
    for (const auto& of : c.of) worst += *std::max_element(of.begin(), of.end());
    for (int s = 0; s < sessions; ++s) {
        int64_t from = sim::now();
        sink->meta_start();
        int64_t slack = MS;
        if (sim::now() - from > slack)
            sim::fail("start-waits", "starting the chain took %lld ns, nothing had to be waited for", (long long)(sim::now() - from));
        model->start(sim::now());
        sim::set(QUIT, 0);
        std::thread watcher;
        if (watched && !p.stages.empty())
            watcher = std::thread([&] {
                for (int i = 0; i < 12 && !sim::get(QUIT); ++i) {
                    sim::settle(1 + c.base * draw(12) / 2);
                    bool working = false;
                    for (std::size_t k = 0; k < c.of.size(); ++k) working |= sim::get(busy(static_cast<int>(k))) != 0;
                    auto* st = p.stages[draw(p.stages.size())];
                    int64_t t = sim::now();
                    if (draw(2)) st->max_size(st->max_size());
                    st->size();
                    if (sim::now() - t > MS) sim::fail("query-waits", "asking a stage for its fill level and limit took %lld ns", (long long)(sim::now() - t));
                    if (working) sim::probe("asked-while-working");
                }
            });
        int pulls = static_cast<int>(draw(2, "long session")) ? 1 + upto(20, 150, "pulls") : 1 + static_cast<int>(draw(4, "pulls"));
        for (int n = 0; n < pulls; ++n) {
            switch (draw(4, "consumer")) {
                case 1: sim::settle(c.base * (1 + draw(20))); break;
                case 2: sim::settle(c.base * (100 + draw(900))); break;
                default: break;
            }
            int64_t asked = sim::now();
            int64_t due = model->pull(asked);
            sim::begin_hang_watch("a consumer waits for a block");
            sink->meta_process();
            sim::end_hang_watch();
            AudioBuffer b(sink->get_buffer());
            if (b.size() != 2) sim::fail("no-block", "pull %d of session %d delivered %zu samples", n, s, b.size());
            slack += MS;
            int64_t got = sim::now();
            if (got > due + slack)
                sim::fail("late", "block %d of session %d was asked for at %lld and there at %lld ns after the start, the parts allow %lld", n, s, (long long)(asked - from),
                          (long long)(got - from), (long long)(due - from));
            if (due == asked && !p.stages.empty()) sim::probe("ready-when-asked");
            if (due > asked) sim::probe("waited-for-the-slowest");
            sim::log("block %d %lld", n, (long long)((got - from) / MS));
        }
        sim::set(QUIT, 1);
        if (watcher.joinable()) watcher.join();
        if (draw(2, "stop later")) sim::settle(c.base * draw(50) / 3);
        int64_t t = sim::now();
        sim::begin_hang_watch("stopping");
        sink->meta_stop();
        sim::end_hang_watch();
        // each stage's worker ends with the block it is at; while it does, the
        // stages behind it may go on to their next one
        int64_t most = worst * static_cast<int64_t>(1 + p.stages.size());
        if (sim::now() - t > most + MS)
            sim::fail("stop-waits", "stopping took %lld ns, all the work of %zu blocks takes %lld", (long long)(sim::now() - t), 1 + p.stages.size(), (long long)most);
        if (sim::now() - t > MS) sim::probe("stopped-while-working");
    }
    if (p.stages.size() > 1) sim::probe("several-workers");
    if (!p.stages.empty()) sim::nontrivial();
    if (p.sources > 1) sim::probe("mixed");
    sink.reset();
}

// ---------------------------------------------------------------- P30
/// Playback on a card, with everything that is to arrive in time.
void gapless() {
    namespace alsa = sim::alsa;
    sim::set_budget(200000000);
    alsa::reset();
    alsa::Device* d = alsa::add("default", "Default card", "Output");
    Costs c;
    costs = &c;
    c.frames = 20 + upto(180, 1000, "block");
    c.rate = draw(2, "rate") ? 8000 : 1000;
    int periods = 2 + static_cast<int>(draw(5, "periods"));
    auto ns = [&](int64_t frames) { return static_cast<int64_t>(static_cast<double>(frames) * 1e9 / c.rate); };
    const int64_t block = ns(c.frames);
    // (what a block costs all in all is drawn around what the card takes to play it)
    c.base = std::max<int64_t>(block / (6 + draw(60, "unit of cost")), 1000);

    Plan p;
    auto sink = std::make_unique<ALSASink>();
    DeviceInfo info = sink->get_device();
    info.channels = 1;
    info.sample_rate = static_cast<unsigned>(c.rate);
    info.period_size = static_cast<unsigned long>(2 * c.frames);
    info.period = static_cast<unsigned>(periods);
    info.update();
    sink->set_device(info);
    auto model = p.build(sink.get(), 1, 1 + static_cast<int>(draw(4, "parts")));
    sink->meta_info_sync();
    if (sink->get_info()->in_buffer != c.frames) sim::fail("wrong-block", "the chain is to deliver blocks of %d frames for periods of %d", sink->get_info()->in_buffer, 2 * c.frames);
    alsa::faults(draw(2), false, false, false);
    sim::schedule_mode(-1, 0);
    int sessions = 1 + static_cast<int>(draw(3, "sessions"));
    int64_t serial = 0;
    for (const auto& of : c.of) serial += *std::max_element(of.begin(), of.end());
    for (int s = 0; s < sessions; ++s) {
        // The plan: what the application does between its cycles, and how many
        // cycles go by before something would be too late.
        const int64_t room = ns(static_cast<int64_t>(2 * c.frames) * periods);
        const int64_t margin = block / 4;
        std::vector<int64_t> pauses;
        int want = draw(2, "long session") ? 1 + upto(20, 150, "cycles") : 1 + static_cast<int>(draw(4, "cycles"));
        bool ok = true, burst = false, deep = false;
        model->start(0);
        int64_t t = 0, first = 0, n = 0;
        while (ok && static_cast<int>(pauses.size()) < want) {
            int64_t pause = 0;
            switch (draw(4, "application")) {
                case 1: pause = c.base * (1 + draw(8)); break;
                case 2: pause = block * (1 + draw(static_cast<uint32_t>(2 * periods))); break;
                default: break;
            }
            if (pauses.empty()) t += pause;
            else {
                // (a pause the card's buffer does not bridge is cut)
                int64_t left = first + n * block - t;
                if (pause > left / 2) pause = left > 0 ? left / 2 : 0;
                t += pause;
            }
            pauses.push_back(pause);
            for (int k = 0; k < periods && ok; ++k, ++n) {
                int64_t asked = t;
                t = model->pull(t);
                if (n == 0) first = t;
                if (n > 0 && t + margin > first + n * block) ok = false;
                if (t - asked > block) burst = true;
                if (first + (n + 1) * block - t > room / 2) deep = true;
                t = std::max(t, first + (n + 1) * block - room);
            }
        }
        if (!ok) pauses.pop_back();
        if (pauses.empty()) {
            sim::probe("can-not-keep-up");
            continue;
        }
        int runs = d->runs, under = d->underruns;
        long before = d->accepted, heard = d->played;
        const int64_t from = sim::now();
        sink->meta_start();
        for (std::size_t k = 0; k < pauses.size(); ++k) {
            if (pauses[k]) sim::settle(pauses[k]);
            sim::begin_hang_watch("a cycle is played");
            sink->meta_process();
            sim::end_hang_watch();
            if (d->underruns != under)
                sim::fail("gap", "the card ran dry in cycle %zu of session %d, every part kept up (blocks of %lld ns)", k, s, (long long)block);
            if (k == 0 && (d->runs == runs || d->set_going > from + first + margin))
                sim::fail("late-start", "the first block of session %d is there after %lld ns, the card is set going %lld ns after that", s, (long long)first, (long long)((d->runs == runs ? sim::now() : d->set_going) - from - first));
            if (d->runs > runs + 1) sim::fail("gap", "the card was stopped and started again in cycle %zu of session %d, every part kept up", k, s);
        }
        long due = static_cast<long>(pauses.size()) * periods * c.frames;
        if (d->accepted - before != due) sim::fail("lost", "session %d handed over %ld of %ld frames", s, d->accepted - before, due);
        sim::begin_hang_watch("stopping");
        sink->meta_stop();
        sim::end_hang_watch();
        if (d->played - heard != due) sim::fail("cut-off", "%ld of %ld frames of session %d were heard", d->played - heard, due, s);
        if (pauses.size() > 3) sim::probe("long-play");
        if (burst) sim::probe("late-block-bridged");
        if (deep) sim::probe("buffer-filled");
        if (serial > block) sim::probe("only-in-time-in-parallel");
        for (int64_t x : pauses)
            if (x > block) sim::probe("busy-application");
        sim::nontrivial();
    }
    if (p.stages.size() > 1) sim::probe("several-workers");
    sink.reset();
}
sim::Reg r29("P29", "overlap", overlap, 1);
sim::Reg r30("P30", "gapless", gapless, 1);
}  // namespace
