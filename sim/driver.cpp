// Seeded search over simulated runs: forks one process per run, gathers
// coverage, gates and minimises violations, replays choice files.
#include "rt.hpp"
#include "rt_int.hpp"

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

using namespace sim;

static double wall() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Outcome {
    bool violated = false, error = false;
    std::string cls, msg;
    uint64_t hist = 0;
    std::vector<uint32_t> choices;
};

static void reset_shm(bool trace) {
    shm->violated = shm->finished = 0;
    shm->cls[0] = shm->msg[0] = 0;
    shm->steps = shm->switches = shm->preemptions = shm->allocs = 0;
    shm->sim_ns = 0;
    shm->nontrivial = 0;
    shm->nfaults = shm->nprobes = shm->nchoices = 0;
    shm->trace_len = 0;
    shm->trace[0] = 0;
    shm->trace_on = trace;
}

static Outcome one(const Scenario* s, uint64_t seed, const std::vector<uint32_t>* ch, bool trace) {
    reset_shm(trace);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 1);
        dup2(n, 2);
        sim::run(s, seed, ch ? (ch->empty() ? (const uint32_t*)"\0\0\0" : ch->data()) : nullptr, ch ? (int)ch->size() : 0);
    }
    Outcome o;
    if (p < 0) {
        o.error = true;
        o.msg = "fork failed";
        return o;
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->violated) {
        o.violated = true;
        o.cls = shm->cls;
        o.msg = shm->msg;
    } else if (WIFSIGNALED(st)) {
        o.violated = true;
        o.cls = "crash";
        o.msg = std::string("process died of signal ") + std::to_string(WTERMSIG(st));
    } else if (!shm->finished || WEXITSTATUS(st) != 0) {
        o.violated = true;
        o.cls = "exit";
        o.msg = "process ended early with status " + std::to_string(WEXITSTATUS(st));
        if (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99) o.error = true;
    }
    if (o.cls == "harness") o.error = true;
    o.hist = shm->hist_hash;
    o.choices.assign(shm->choices, shm->choices + shm->nchoices);
    return o;
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}

// Shrinks a failing choice list while the same class of violation persists.
static std::vector<uint32_t> shrink(const Scenario* s, std::vector<uint32_t> best, const std::string& cls, double limit, int* tries) {
    double t0 = wall();
    auto trim = [](std::vector<uint32_t>& v) {
        while (!v.empty() && v.back() == 0) v.pop_back();
    };
    auto ok = [&](std::vector<uint32_t>& c) {
        if (wall() - t0 > limit) return false;
        ++*tries;
        Outcome o = one(s, 0, &c, false);
        if (o.violated && !o.error && o.cls == cls) {
            std::vector<uint32_t> n = o.choices;
            trim(n);
            if (n.size() < c.size()) c = n;
            return true;
        }
        return false;
    };
    trim(best);
    bool progress = true;
    while (progress && wall() - t0 < limit) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint32_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                trim(c);
                if (c.size() < best.size() && ok(c)) {
                    best = c;
                    progress = true;
                } else {
                    std::vector<uint32_t> z(best);
                    bool nz = false;
                    for (size_t k = i; k < i + len; ++k) nz |= z[k] != 0, z[k] = 0;
                    trim(z);
                    if (nz && ok(z)) {
                        best = z;
                        progress = true;
                    }
                    i += len;
                }
                if (wall() - t0 > limit) return best;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) {
            for (uint32_t t : {1u, best[i] / 2, best[i] - 1}) {
                if (i >= best.size() || best[i] <= t || best[i] == 0) continue;
                std::vector<uint32_t> c(best);
                c[i] = t;
                if (ok(c)) {
                    best = c;
                    progress = true;
                    break;
                }
            }
            if (wall() - t0 > limit) return best;
        }
    }
    return best;
}

static void write_replay(const char* path, const Scenario* s, uint64_t seed, uint64_t run, const Outcome& o, const std::vector<uint32_t>& ch,
                         size_t orig, int tries) {
    FILE* f = fopen(path, "w");
    fprintf(f, "{\"property\": \"%s\",\n \"scenario\": \"%s\",\n \"seed\": %llu,\n \"run\": %llu,\n \"class\": \"%s\",\n \"message\": \"%s\",\n", s->property,
            s->name, (unsigned long long)seed, (unsigned long long)run, jesc(o.cls).c_str(), jesc(o.msg).c_str());
    fprintf(f, " \"hash\": \"%016llx\",\n \"original_choices\": %zu,\n \"minimised_choices\": %zu,\n \"shrink_runs\": %d,\n \"choices\": [",
            (unsigned long long)o.hist, orig, ch.size(), tries);
    for (size_t i = 0; i < ch.size(); ++i) fprintf(f, "%s%u", i ? "," : "", ch[i]);
    fprintf(f, "],\n \"trace\": [\n");
    std::string t(shm->trace, shm->trace_len);
    size_t pos = 0;
    bool first = true;
    int lines = 0;
    while (pos < t.size() && lines < 4000) {
        size_t e = t.find('\n', pos);
        if (e == std::string::npos) e = t.size();
        fprintf(f, "%s  \"%s\"", first ? "" : ",\n", jesc(t.substr(pos, e - pos)).c_str());
        first = false;
        pos = e + 1;
        ++lines;
    }
    fprintf(f, "\n ]}\n");
    fclose(f);
}

int main(int argc, char** argv) {
    std::string prop, out, replay, only;
    uint64_t seed = 1, from = 0, stride = 1, runs = 1000, cpu = 0;
    double tlimit = 20, shrink_t = 20;
    bool list = false, twice = false, dump = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--from") from = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--runs") runs = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--shrink-time") shrink_t = atof(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--scenario") only = nx();
        else if (a == "--cpu") cpu = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--list") list = true;
        else if (a == "--twice") twice = true;
        else if (a == "--dump") dump = true;
    }
    if (list) {
        for (int i = 0; i < scenario_count(); ++i) printf("%s %s %d\n", scenario_at(i)->property, scenario_at(i)->name, scenario_at(i)->weight);
        return 0;
    }
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    cpu_set_t have;
    sched_getaffinity(0, sizeof have, &have);
    int nc = CPU_COUNT(&have), want = nc ? (int)(cpu % nc) : 0, k = 0;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &have) && k++ == want) {
            CPU_SET(i, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            break;
        }

    std::vector<const Scenario*> pool;
    for (int i = 0; i < scenario_count(); ++i) {
        auto* s = scenario_at(i);
        if (!prop.empty() && prop != s->property) continue;
        if (!only.empty() && only != s->name) continue;
        for (int w = 0; w < s->weight; ++w) pool.push_back(s);
    }

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) return 2;
        std::string t;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
        fclose(f);
        auto field = [&](const char* k) {
            std::string key = std::string("\"") + k + "\": \"";
            size_t p = t.find(key);
            if (p == std::string::npos) return std::string();
            p += key.size();
            return t.substr(p, t.find('"', p) - p);
        };
        std::string sc = field("scenario"), pr = field("property"), cls = field("class"), h = field("hash");
        const Scenario* s = nullptr;
        for (int i = 0; i < scenario_count(); ++i)
            if (sc == scenario_at(i)->name && pr == scenario_at(i)->property) s = scenario_at(i);
        if (!s) return 2;
        std::vector<uint32_t> ch;
        size_t p = t.find("\"choices\": [");
        p += 12;
        while (t[p] != ']') {
            ch.push_back(strtoul(t.c_str() + p, nullptr, 10));
            while (t[p] != ',' && t[p] != ']') ++p;
            if (t[p] == ',') ++p;
        }
        Outcome o = one(s, 0, &ch, true);
        char hs[32];
        snprintf(hs, sizeof hs, "%016llx", (unsigned long long)o.hist);
        printf("%s\n", shm->trace);
        printf("REPLAY violated=%d class=%s hash=%s expected_class=%s expected_hash=%s\n", o.violated, o.cls.c_str(), hs, cls.c_str(), h.c_str());
        printf("REPLAY message=%s\n", o.msg.c_str());
        return o.violated && o.cls == cls && h == hs ? 0 : 3;
    }

    if (pool.empty()) return 2;
    double t0 = wall();
    uint64_t done = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, simns = 0, allocs = 0;
    std::unordered_set<uint64_t> schedh, stateh, both;
    std::map<std::string, uint64_t> faults, probes, per_sc;
    std::vector<std::string> samples;
    int rc = 0;
    std::string vline, err;
    for (uint64_t k2 = 0; k2 < runs; ++k2) {
        uint64_t run = from + k2 * stride;
        if (wall() - t0 > tlimit) break;
        uint64_t rs = mix64(mix64(seed * 1000003 + 17) ^ mix64(run + 0x51ed));
        const Scenario* s = pool[mix64(rs ^ 0xabcdef) % pool.size()];
        Outcome o = one(s, rs, nullptr, false);
        ++done;
        nontriv += shm->nontrivial;
        steps += shm->steps;
        switches += shm->switches;
        preempts += shm->preemptions;
        simns += shm->sim_ns;
        allocs += shm->allocs;
        per_sc[s->name]++;
        if (shm->nontrivial) {
            if (schedh.size() < 4000000) schedh.insert(shm->sched_hash);
            if (stateh.size() < 4000000) stateh.insert(shm->state_hash);
            if (both.size() < 4000000) both.insert(mix64(shm->sched_hash) ^ shm->state_hash ^ (uint64_t)(uintptr_t)s);
        }
        for (int i = 0; i < shm->nfaults; ++i) faults[shm->faults[i].name] += shm->faults[i].count;
        for (int i = 0; i < shm->nprobes; ++i) probes[shm->probes[i].name] += shm->probes[i].count;
        if (samples.size() < 2 && shm->nontrivial) {
            char b[200];
            snprintf(b, sizeof b, "run %llu scenario %s: %d choices, %llu switches, %llu steps, history %016llx", (unsigned long long)run, s->name,
                     shm->nchoices, (unsigned long long)shm->switches, (unsigned long long)shm->steps, (unsigned long long)shm->state_hash);
            samples.push_back(b);
        }
        if (dump) printf("%llu %s %016llx %d %s\n", (unsigned long long)run, s->name, (unsigned long long)o.hist, o.violated, o.cls.c_str());
        if (twice && !o.violated) {
            Outcome o2 = one(s, rs, nullptr, false);
            if (o2.hist != o.hist || o2.violated) {
                err = "run " + std::to_string(run) + " of " + s->name + " is not deterministic";
                rc = 4;
                break;
            }
            Outcome o3 = one(s, 0, &o.choices, false);
            if (o3.hist != o.hist) {
                err = "run " + std::to_string(run) + " of " + s->name + " does not replay from its choices";
                rc = 4;
                break;
            }
        }
        if (o.error) {
            err = o.cls + ": " + o.msg + " in run " + std::to_string(run) + " of " + s->name;
            rc = 4;
            break;
        }
        if (o.violated) {
            Outcome again = one(s, rs, nullptr, false);
            if (!again.violated || again.cls != o.cls || again.hist != o.hist) {
                err = "violation in run " + std::to_string(run) + " did not reproduce (" + o.cls + " / " + again.cls + ") " + o.msg;
                rc = 4;
                break;
            }
            std::vector<uint32_t> ch = o.choices;
            int tries = 0;
            Outcome base = one(s, 0, &ch, false);
            if (!base.violated || base.cls != o.cls) {
                err = "violation in run " + std::to_string(run) + " did not replay from its choices: " + o.cls + ": " + o.msg + " / " + base.cls + ": " + base.msg;
                rc = 4;
                break;
            }
            ch = shrink(s, ch, o.cls, shrink_t, &tries);
            Outcome fin = one(s, 0, &ch, true);
            if (!fin.violated) {
                err = "minimised choices did not replay";
                rc = 4;
                break;
            }
            write_replay((out + ".replay").c_str(), s, rs, run, fin, ch, o.choices.size(), tries);
            vline = fin.cls + ": " + fin.msg + " [scenario " + s->name + "]";
            rc = 1;
            break;
        }
    }
    double w = wall() - t0;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"steps\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"sim_ns\": %llu, \"allocs\": %llu, \"wall\": %.3f, \"rc\": %d,\n",
            (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)preempts,
            (unsigned long long)simns, (unsigned long long)allocs, w, rc);
    auto dumpmap = [&](const char* n, std::map<std::string, uint64_t>& m) {
        fprintf(f, " \"%s\": {", n);
        bool first = true;
        for (auto& [a, b] : m) fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(a).c_str(), (unsigned long long)b), first = false;
        fprintf(f, "},\n");
    };
    dumpmap("faults", faults);
    dumpmap("probes", probes);
    dumpmap("scenarios", per_sc);
    fprintf(f, " \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n \"error\": \"%s\", \"violation\": \"%s\"}\n", jesc(err).c_str(), jesc(vline).c_str());
    if (!out.empty()) {
        fclose(f);
        for (auto [n, st] : {std::pair{".sched", &schedh}, std::pair{".state", &stateh}, std::pair{".both", &both}}) {
            FILE* h = fopen((out + n).c_str(), "wb");
            for (uint64_t x : *st) fwrite(&x, 8, 1, h);
            fclose(h);
        }
    } else {
        printf("distinct sched %zu state %zu both %zu\n", schedh.size(), stateh.size(), both.size());
    }
    return rc;
}
