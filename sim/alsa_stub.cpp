// Simulated ALSA: device list, handles with a state machine, and a sound card
// that consumes frames in simulated time. Follows the contract of alsa-lib:
// misuse that would crash or corrupt the real library is reported.
#include "alsa_sim.hpp"
#include "rt.hpp"
#include "rt_int.hpp"

#define ALSA_PCM_NEW_HW_PARAMS_API
#include <alsa/asoundlib.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace sim {
namespace alsa {
namespace {
constexpr int MAXDEV = 16, MAXPCM = 400, MAXLIST = 400;
Device devs[MAXDEV];
int ndev = 0, list_err = 0;
bool f_int, f_under, f_susp, f_gone;

struct Params {
    uint32_t magic;
    int dev;
    unsigned channels, rate, periods;
    unsigned long period_size;
    bool committed;
};
struct Pcm {
    bool used, open;
    int dev;
    int state;  // snd_pcm_state_t
    unsigned channels, rate, periods;
    unsigned long period_size, buffer_size;
    unsigned long start_threshold, avail_min;
    bool nonblock;
    int64_t start_ns;  // when the card started, in PREPARED: 0
    int64_t appl, base;  // frames handed over / played before start_ns since prepare
};
Pcm pcms[MAXPCM];
int npcm = 0;
struct List {
    bool open;
    void* hints[MAXDEV + 1];
};
List lists[MAXLIST];
int nlist = 0;
constexpr uint32_t MAGIC = 0xa15aa15a;

Pcm* use(snd_pcm_t* h, const char* what) {
    rt_sync_point();
    if (!h) fail("null-handle", "%s is called without a device handle", what);
    Pcm* p = reinterpret_cast<Pcm*>(h);
    if (p < pcms || p >= pcms + MAXPCM || !p->used) fail("bad-handle", "%s is called with something that is not a device handle", what);
    if (!p->open) fail("use-after-close", "%s is called on a device that was closed", what);
    return p;
}
Params* par(snd_pcm_hw_params_t* q, const char* what, bool filled = true) {
    if (!q) fail("null-handle", "%s is called without parameters", what);
    Params* p = reinterpret_cast<Params*>(q);
    check_mem(p, sizeof *p, false, what);
    if (filled && p->magic != MAGIC) return nullptr;
    return p;
}
const Params* par(const snd_pcm_hw_params_t* q, const char* what) { return par(const_cast<snd_pcm_hw_params_t*>(q), what); }

// ---- the card ----
int64_t played_frames(Pcm* p) {
    if (p->state != SND_PCM_STATE_RUNNING && p->state != SND_PCM_STATE_DRAINING) return p->base;
    __int128 n = (__int128)(now() - p->start_ns) * p->rate / 1000000000;
    int64_t r = p->base + (int64_t)n;
    return r;
}
void update(Pcm* p) {
    if (p->state != SND_PCM_STATE_RUNNING) return;
    int64_t hw = played_frames(p);
    if (hw >= p->appl && p->appl > 0) {
        devs[p->dev].played += (p->appl - p->base) * p->channels;
        p->base = p->appl;
        p->state = SND_PCM_STATE_XRUN;
        ++devs[p->dev].underruns;
        count_fault("underrun");
    } else if (hw > p->base) {
        int64_t adv = hw - p->base;
        // keep base and start in step without losing fractions
        devs[p->dev].played += adv * p->channels;
        p->base = hw;
        p->start_ns += (int64_t)((__int128)adv * 1000000000 / p->rate);
    }
}
void drop_pending(Pcm* p) {
    long rest = (p->appl - p->base) * p->channels;
    if (rest > 0) devs[p->dev].lost += rest;
    p->appl = p->base = 0;
}
}  // namespace

void reset() {
    Quiet q;
    for (int i = 0; i < MAXDEV; ++i) memset(&devs[i], 0, offsetof(Device, data));
    ndev = npcm = nlist = list_err = 0;
    memset(pcms, 0, sizeof pcms);
    f_int = f_under = f_susp = f_gone = false;
}
Device* add(const char* name, const char* desc, const char* io) {
    Device* d = &devs[ndev++];
    d->has_name = name;
    d->has_desc = desc;
    d->has_io = io;
    snprintf(d->name, sizeof d->name, "%s", name ? name : "");
    snprintf(d->desc, sizeof d->desc, "%s", desc ? desc : "");
    snprintf(d->io, sizeof d->io, "%s", io ? io : "");
    d->min_channels = 1;
    d->max_channels = 8;
    d->min_rate = 1000;
    d->max_rate = 192000;
    d->min_periods = 2;
    d->max_periods = 32;
    d->min_period_size = 2;
    d->max_period_size = 65536;
    d->own_rate = 44100;
    d->own_periods = 3;
    d->own_period_size = 24;
    return d;
}
void list_error(int e) { list_err = e; }
int open_handles() {
    int n = 0;
    for (int i = 0; i < npcm; ++i) n += pcms[i].open;
    return n;
}
int open_lists() {
    int n = 0;
    for (int i = 0; i < nlist; ++i) n += lists[i].open;
    return n;
}
int total_opens() { return npcm; }
void faults(bool a, bool b, bool c, bool d) {
    f_int = a;
    f_under = b;
    f_susp = c;
    f_gone = d;
}
}  // namespace alsa
}  // namespace sim

using namespace sim;
using namespace sim::alsa;

extern "C" {
int snd_device_name_hint(int, const char*, void*** out) {
    rt_sync_point();
    if (list_err || nlist >= MAXLIST) {
        count_fault("device-list-refused");
        return list_err ? -list_err : -ENOMEM;
    }
    List* l = &lists[nlist++];
    l->open = true;
    for (int i = 0; i < ndev; ++i) l->hints[i] = &devs[i];
    l->hints[ndev] = nullptr;
    *out = l->hints;
    return 0;
}
int snd_device_name_free_hint(void** h) {
    rt_sync_point();
    if (!h) fail("null-handle", "a device list that was never obtained is freed");
    for (int i = 0; i < nlist; ++i)
        if (lists[i].hints == h) {
            if (!lists[i].open) fail("use-after-close", "a device list is freed twice");
            lists[i].open = false;
            return 0;
        }
    fail("bad-handle", "something that is not a device list is freed");
}
char* snd_device_name_get_hint(const void* h, const char* id) {
    const Device* d = static_cast<const Device*>(h);
    if (!h) fail("null-handle", "a hint is taken from behind the end of the device list");
    if (d < devs || d >= devs + ndev) fail("bad-handle", "a hint is taken from something that is not a device");
    bool live = false;
    for (int i = 0; i < nlist; ++i) live |= lists[i].open;
    if (!live) fail("use-after-close", "a hint is taken from a device list that was freed");
    const char* s = nullptr;
    if (!strcmp(id, "NAME") && d->has_name) s = d->name;
    if (!strcmp(id, "DESC") && d->has_desc) s = d->desc;
    if (!strcmp(id, "IOID") && d->has_io) s = d->io;
    if (!s) return nullptr;
    char* r = static_cast<char*>(malloc(strlen(s) + 1));
    if (r) memcpy(r, s, strlen(s) + 1);
    return r;
}

int snd_pcm_open(snd_pcm_t** out, const char* name, snd_pcm_stream_t, int mode) {
    rt_sync_point();
    int i = 0;
    while (i < ndev && !(devs[i].has_name && !strcmp(devs[i].name, name))) ++i;
    if (i == ndev) return -ENOENT;
    Device& d = devs[i];
    if (d.gone) return -ENODEV;
    if (d.open_error) {
        count_fault("device-open-refused");
        return -d.open_error;
    }
    if (d.exclusive && d.opens > 0) {
        count_fault("device-busy");
        return -EBUSY;
    }
    if (npcm >= MAXPCM) return -EMFILE;
    Pcm* p = &pcms[npcm++];
    memset(p, 0, sizeof *p);
    p->used = p->open = true;
    p->dev = i;
    p->state = SND_PCM_STATE_OPEN;
    p->nonblock = (mode & SND_PCM_NONBLOCK) != 0;
    ++d.opens;
    *out = reinterpret_cast<snd_pcm_t*>(p);
    return 0;
}
int snd_pcm_close(snd_pcm_t* h) {
    Pcm* p = use(h, "close");
    update(p);
    drop_pending(p);
    p->open = false;
    --devs[p->dev].opens;
    return 0;
}
snd_pcm_state_t snd_pcm_state(snd_pcm_t* h) {
    Pcm* p = use(h, "state");
    update(p);
    return static_cast<snd_pcm_state_t>(p->state);
}
int snd_pcm_nonblock(snd_pcm_t* h, int on) { return use(h, "nonblock")->nonblock = on != 0, 0; }
int snd_pcm_drain(snd_pcm_t* h) {
    Pcm* p = use(h, "drain");
    update(p);
    if (devs[p->dev].gone) return -ENODEV;
    if (p->state == SND_PCM_STATE_OPEN) return -EBADFD;
    if (p->state == SND_PCM_STATE_SUSPENDED) return -ESTRPIPE;
    if (p->state == SND_PCM_STATE_RUNNING || (p->state == SND_PCM_STATE_PREPARED && p->appl > 0)) {
        int64_t rest = p->appl - p->base;
        if (rest > 0 && p->nonblock) {
            if (p->state == SND_PCM_STATE_PREPARED) snd_pcm_start(h);
            return -EAGAIN;
        }
        if (rest > 0) rt_block_sleep((int64_t)((__int128)rest * 1000000000 / p->rate) + 1);
        if (!p->open) fail("use-after-close", "a device is closed while it is being drained");
        devs[p->dev].played += rest * p->channels;
    }
    p->appl = p->base = 0;
    p->state = SND_PCM_STATE_SETUP;
    return 0;
}
int snd_pcm_drop(snd_pcm_t* h) {
    Pcm* p = use(h, "drop");
    update(p);
    if (p->state == SND_PCM_STATE_OPEN) return -EBADFD;
    drop_pending(p);
    p->state = SND_PCM_STATE_SETUP;
    return 0;
}
int snd_pcm_prepare(snd_pcm_t* h) {
    Pcm* p = use(h, "prepare");
    update(p);
    if (devs[p->dev].gone) return -ENODEV;
    if (p->state == SND_PCM_STATE_OPEN) return -EBADFD;
    if (p->state == SND_PCM_STATE_RUNNING) return -EBUSY;
    drop_pending(p);
    p->state = SND_PCM_STATE_PREPARED;
    return 0;
}
int snd_pcm_start(snd_pcm_t* h) {
    Pcm* p = use(h, "start");
    if (p->state != SND_PCM_STATE_PREPARED) return -EBADFD;
    if (p->appl == 0) return -EPIPE;
    p->state = SND_PCM_STATE_RUNNING;
    p->start_ns = now();
    ++devs[p->dev].runs;
    devs[p->dev].set_going = now();
    return 0;
}
int snd_pcm_resume(snd_pcm_t* h) {
    Pcm* p = use(h, "resume");
    if (devs[p->dev].gone) return -ENODEV;
    if (p->state != SND_PCM_STATE_SUSPENDED) return -EBADFD;
    switch (draw(3, "resume")) {
        case 0:  // goes on where it was
            p->state = SND_PCM_STATE_RUNNING;
            p->start_ns = now();
            return 0;
        case 1: return -EAGAIN;
        default: return -ENOSYS;
    }
}
int snd_pcm_recover(snd_pcm_t* h, int err, int) {
    Pcm* p = use(h, "recover");
    (void)p;
    if (err > 0) err = -err;
    if (err == -EINTR) return 0;
    if (err == -EPIPE) return snd_pcm_prepare(h);
    if (err == -ESTRPIPE) {
        while ((err = snd_pcm_resume(h)) == -EAGAIN) rt_block_sleep(1000000000);
        return err < 0 ? snd_pcm_prepare(h) : 0;
    }
    return err;
}
int snd_pcm_wait(snd_pcm_t* h, int ms) {
    Pcm* p = use(h, "wait");
    int64_t end = ms < 0 ? INT64_MAX : now() + ms * INT64_C(1000000);
    for (;;) {
        if (devs[p->dev].gone) return -ENODEV;
        update(p);
        if (p->state == SND_PCM_STATE_XRUN) return -EPIPE;
        if (p->state == SND_PCM_STATE_SUSPENDED) return -ESTRPIPE;
        if ((int64_t)p->buffer_size - (p->appl - p->base) >= (int64_t)p->avail_min) return 1;
        if (now() >= end) return 0;
        if (p->state != SND_PCM_STATE_RUNNING && ms < 0) fail("deadlock", "waiting without end for a card that does not run");
        rt_block_sleep(1000000);
        if (!p->open) fail("use-after-close", "a device is closed while it is being waited for");
    }
}
snd_pcm_sframes_t snd_pcm_avail_update(snd_pcm_t* h) {
    Pcm* p = use(h, "avail");
    update(p);
    if (p->state == SND_PCM_STATE_XRUN) return -EPIPE;
    if (p->state == SND_PCM_STATE_SUSPENDED) return -ESTRPIPE;
    return (snd_pcm_sframes_t)(p->buffer_size - (p->appl - p->base));
}
snd_pcm_sframes_t snd_pcm_avail(snd_pcm_t* h) { return snd_pcm_avail_update(h); }
int snd_pcm_delay(snd_pcm_t* h, snd_pcm_sframes_t* d) {
    Pcm* p = use(h, "delay");
    update(p);
    *d = p->appl - p->base;
    return 0;
}
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* h, const void* buf, snd_pcm_uframes_t frames) {
    Pcm* p = use(h, "writei");
    Device& d = devs[p->dev];
    if (p->state == SND_PCM_STATE_OPEN || p->state == SND_PCM_STATE_SETUP) return -EBADFD;
    if (frames) check_mem(buf, frames * p->channels * 2, false, "writei");
    if (f_gone && !d.gone && fault("device-unplugged", 1, 40)) d.gone = true;
    if (d.gone) return -ENODEV;
    update(p);
    if (f_susp && p->state == SND_PCM_STATE_RUNNING && fault("device-suspended", 1, 10)) {
        p->state = SND_PCM_STATE_SUSPENDED;
        ++d.suspends;
    }
    if (p->state == SND_PCM_STATE_SUSPENDED) return -ESTRPIPE;
    if (f_under && p->state == SND_PCM_STATE_RUNNING && fault("underrun-forced", 1, 8)) {
        // the machine was busy for long enough for the card to run dry
        rt_block_sleep((int64_t)((__int128)(p->appl - p->base + 1) * 1000000000 / p->rate) + 1000);
        update(p);
    }
    if (p->state == SND_PCM_STATE_XRUN) return -EPIPE;
    if (f_int && fault("write-interrupted", 1, 8)) return -EINTR;
    const int16_t* s = static_cast<const int16_t*>(buf);
    snd_pcm_uframes_t done = 0;
    while (done < frames) {
        update(p);
        if (p->state == SND_PCM_STATE_XRUN) return done ? (snd_pcm_sframes_t)done : -EPIPE;
        int64_t space = (int64_t)p->buffer_size - (p->appl - p->base);
        int64_t n = (int64_t)(frames - done) < space ? (int64_t)(frames - done) : space;
        if (n > 0 && f_int && n > 1 && fault("short-device-write", 1, 6)) {
            n = 1 + draw((uint32_t)n - 1);
            frames = done + n;  // interrupted after this much
        }
        for (int64_t k = 0; k < n * p->channels; ++k)
            if (d.accepted < CAP) d.data[d.accepted++] = s[done * p->channels + k];
        done += n;
        p->appl += n;
        if (p->state == SND_PCM_STATE_PREPARED && n > 0 && p->appl - p->base >= (int64_t)p->start_threshold) {
            p->state = SND_PCM_STATE_RUNNING;
            p->start_ns = now();
            ++d.runs;
            d.set_going = now();
        }
        if (done < frames && p->nonblock) return done ? (snd_pcm_sframes_t)done : -EAGAIN;
        if (done < frames && p->state != SND_PCM_STATE_RUNNING) fail("deadlock", "writing to a full card that does not run");
        if (done < frames) {
            unsigned long want = p->period_size < frames - done ? p->period_size : frames - done;
            rt_block_sleep((int64_t)((__int128)want * 1000000000 / p->rate) + 1);
            if (!p->open) fail("use-after-close", "a device is closed while it is being written to");
        }
    }
    return (snd_pcm_sframes_t)done;
}

size_t snd_pcm_hw_params_sizeof(void) { return sizeof(Params); }
int snd_pcm_hw_params_malloc(snd_pcm_hw_params_t** p) {
    *p = static_cast<snd_pcm_hw_params_t*>(calloc(1, sizeof(Params)));
    return *p ? 0 : -ENOMEM;
}
void snd_pcm_hw_params_free(snd_pcm_hw_params_t* p) { free(p); }
int snd_pcm_hw_params_any(snd_pcm_t* h, snd_pcm_hw_params_t* q) {
    Pcm* p = use(h, "hw_params_any");
    Params* r = par(q, "hw_params_any", false);
    *r = Params{MAGIC, p->dev, 0, 0, 0, 0, false};
    return 0;
}
#define SETTER(NAME, ...)                                             \
    int NAME(snd_pcm_t* h, snd_pcm_hw_params_t* q, __VA_ARGS__) {     \
        Pcm* p = use(h, #NAME);                                       \
        Params* r = par(q, #NAME);                                    \
        (void)p;                                                      \
        if (!r) return -EINVAL;
SETTER(snd_pcm_hw_params_set_access, snd_pcm_access_t) return 0; }
SETTER(snd_pcm_hw_params_set_format, snd_pcm_format_t f) return f == SND_PCM_FORMAT_S16 ? 0 : -EINVAL; }
SETTER(snd_pcm_hw_params_set_rate_resample, unsigned int) return 0; }
SETTER(snd_pcm_hw_params_set_channels, unsigned int v)
    if (v < devs[p->dev].min_channels || v > devs[p->dev].max_channels) return -EINVAL;
    r->channels = v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_rate, unsigned int v, int)
    if (v < devs[p->dev].min_rate || v > devs[p->dev].max_rate) return -EINVAL;
    r->rate = v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_rate_near, unsigned int* v, int*)
    *v = *v < devs[p->dev].min_rate ? devs[p->dev].min_rate : *v > devs[p->dev].max_rate ? devs[p->dev].max_rate : *v;
    r->rate = *v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_periods, unsigned int v, int)
    if (v < devs[p->dev].min_periods || v > devs[p->dev].max_periods) return -EINVAL;
    r->periods = v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_period_size, snd_pcm_uframes_t v, int)
    if (v < devs[p->dev].min_period_size || v > devs[p->dev].max_period_size) return -EINVAL;
    r->period_size = v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_channels_near, unsigned int* v)
    *v = *v < devs[p->dev].min_channels ? devs[p->dev].min_channels : *v > devs[p->dev].max_channels ? devs[p->dev].max_channels : *v;
    r->channels = *v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_periods_near, unsigned int* v, int*)
    *v = *v < devs[p->dev].min_periods ? devs[p->dev].min_periods : *v > devs[p->dev].max_periods ? devs[p->dev].max_periods : *v;
    r->periods = *v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_period_size_near, snd_pcm_uframes_t* v, int*)
    *v = *v < devs[p->dev].min_period_size ? devs[p->dev].min_period_size : *v > devs[p->dev].max_period_size ? devs[p->dev].max_period_size : *v;
    r->period_size = *v;
    return 0;
}
SETTER(snd_pcm_hw_params_set_buffer_size, snd_pcm_uframes_t v)
    if (!r->period_size || v % r->period_size) return -EINVAL;
    unsigned n = (unsigned)(v / r->period_size);
    if (n < devs[p->dev].min_periods || n > devs[p->dev].max_periods) return -EINVAL;
    r->periods = n;
    return 0;
}
SETTER(snd_pcm_hw_params_set_buffer_size_near, snd_pcm_uframes_t* v)
    if (!r->period_size) r->period_size = devs[p->dev].own_period_size;
    unsigned n = (unsigned)((*v + r->period_size / 2) / r->period_size);
    n = n < devs[p->dev].min_periods ? devs[p->dev].min_periods : n > devs[p->dev].max_periods ? devs[p->dev].max_periods : n;
    r->periods = n;
    *v = n * r->period_size;
    return 0;
}
SETTER(snd_pcm_hw_params_test_access, snd_pcm_access_t) return 0; }
SETTER(snd_pcm_hw_params_test_format, snd_pcm_format_t f) return f == SND_PCM_FORMAT_S16 ? 0 : -EINVAL; }
SETTER(snd_pcm_hw_params_test_channels, unsigned int v) return v < devs[p->dev].min_channels || v > devs[p->dev].max_channels ? -EINVAL : 0; }
SETTER(snd_pcm_hw_params_test_rate, unsigned int v, int) return v < devs[p->dev].min_rate || v > devs[p->dev].max_rate ? -EINVAL : 0; }
SETTER(snd_pcm_hw_params_test_periods, unsigned int v, int) return v < devs[p->dev].min_periods || v > devs[p->dev].max_periods ? -EINVAL : 0; }
SETTER(snd_pcm_hw_params_test_period_size, snd_pcm_uframes_t v, int) return v < devs[p->dev].min_period_size || v > devs[p->dev].max_period_size ? -EINVAL : 0; }
void snd_pcm_hw_params_copy(snd_pcm_hw_params_t* to, const snd_pcm_hw_params_t* from) {
    *par(to, "hw_params_copy", false) = *reinterpret_cast<const Params*>(from);
}
// Software parameters: when the card starts and when it wakes a waiting writer.
struct SwParams {
    unsigned long start_threshold, avail_min;
};
size_t snd_pcm_sw_params_sizeof(void) { return sizeof(SwParams); }
int snd_pcm_sw_params_malloc(snd_pcm_sw_params_t** q) {
    *q = static_cast<snd_pcm_sw_params_t*>(calloc(1, sizeof(SwParams)));
    return *q ? 0 : -ENOMEM;
}
void snd_pcm_sw_params_free(snd_pcm_sw_params_t* q) { free(q); }
int snd_pcm_sw_params_current(snd_pcm_t* h, snd_pcm_sw_params_t* q) {
    Pcm* p = use(h, "sw_params_current");
    check_mem(q, sizeof(SwParams), true, "sw_params_current");
    *reinterpret_cast<SwParams*>(q) = SwParams{p->start_threshold, p->avail_min};
    return 0;
}
int snd_pcm_sw_params_set_start_threshold(snd_pcm_t* h, snd_pcm_sw_params_t* q, snd_pcm_uframes_t v) {
    use(h, "sw_params_set_start_threshold");
    reinterpret_cast<SwParams*>(q)->start_threshold = v;
    return 0;
}
int snd_pcm_sw_params_set_stop_threshold(snd_pcm_t* h, snd_pcm_sw_params_t*, snd_pcm_uframes_t) { return use(h, "sw_params_set_stop_threshold"), 0; }
int snd_pcm_sw_params_set_silence_threshold(snd_pcm_t* h, snd_pcm_sw_params_t*, snd_pcm_uframes_t) { return use(h, "sw_params_set_silence_threshold"), 0; }
int snd_pcm_sw_params_set_silence_size(snd_pcm_t* h, snd_pcm_sw_params_t*, snd_pcm_uframes_t) { return use(h, "sw_params_set_silence_size"), 0; }
int snd_pcm_sw_params_set_avail_min(snd_pcm_t* h, snd_pcm_sw_params_t* q, snd_pcm_uframes_t v) {
    use(h, "sw_params_set_avail_min");
    reinterpret_cast<SwParams*>(q)->avail_min = v;
    return 0;
}
int snd_pcm_sw_params_get_start_threshold(const snd_pcm_sw_params_t* q, snd_pcm_uframes_t* v) {
    *v = reinterpret_cast<const SwParams*>(q)->start_threshold;
    return 0;
}
int snd_pcm_sw_params(snd_pcm_t* h, snd_pcm_sw_params_t* q) {
    Pcm* p = use(h, "sw_params");
    if (p->state == SND_PCM_STATE_OPEN) return -EBADFD;
    p->start_threshold = reinterpret_cast<SwParams*>(q)->start_threshold;
    p->avail_min = reinterpret_cast<SwParams*>(q)->avail_min;
    return 0;
}
snd_pcm_sframes_t snd_pcm_bytes_to_frames(snd_pcm_t* h, ssize_t n) { return n / (2 * (ssize_t)use(h, "bytes_to_frames")->channels); }
ssize_t snd_pcm_frames_to_bytes(snd_pcm_t* h, snd_pcm_sframes_t n) { return n * 2 * (ssize_t)use(h, "frames_to_bytes")->channels; }
int snd_pcm_get_params(snd_pcm_t* h, snd_pcm_uframes_t* b, snd_pcm_uframes_t* n) {
    Pcm* p = use(h, "get_params");
    *b = p->buffer_size;
    *n = p->period_size;
    return 0;
}
int snd_pcm_reset(snd_pcm_t* h) {
    Pcm* p = use(h, "reset");
    update(p);
    drop_pending(p);
    return 0;
}
int snd_pcm_hw_params(snd_pcm_t* h, snd_pcm_hw_params_t* q) {
    Pcm* p = use(h, "hw_params");
    Params* r = par(q, "hw_params");
    if (!r) return -EINVAL;
    if (devs[p->dev].gone) return -ENODEV;
    if (devs[p->dev].config_error) {
        count_fault("device-config-refused");
        return -devs[p->dev].config_error;
    }
    if (p->state != SND_PCM_STATE_OPEN && p->state != SND_PCM_STATE_SETUP && p->state != SND_PCM_STATE_PREPARED) return -EBADFD;
    if (!r->channels) r->channels = devs[p->dev].min_channels;
    if (!r->rate) r->rate = devs[p->dev].own_rate;
    if (!r->periods) r->periods = devs[p->dev].own_periods;
    if (!r->period_size) r->period_size = devs[p->dev].own_period_size;
    r->committed = true;
    p->channels = r->channels;
    p->rate = r->rate;
    p->periods = r->periods;
    p->period_size = r->period_size;
    p->buffer_size = r->periods * r->period_size;
    p->start_threshold = 1;
    p->avail_min = p->period_size;
    Device& d = devs[p->dev];
    d.channels = p->channels;
    d.rate = p->rate;
    d.periods = p->periods;
    d.period_size = p->period_size;
    d.buffer_size = p->buffer_size;
    p->state = SND_PCM_STATE_PREPARED;
    p->appl = p->base = 0;
    return 0;
}
int snd_pcm_hw_params_current(snd_pcm_t* h, snd_pcm_hw_params_t* q) {
    Pcm* p = use(h, "hw_params_current");
    Params* r = par(q, "hw_params_current", false);
    if (p->state == SND_PCM_STATE_OPEN) return -EBADFD;
    *r = Params{MAGIC, p->dev, p->channels, p->rate, p->periods, p->period_size, true};
    return 0;
}
int snd_pcm_hw_free(snd_pcm_t* h) {
    Pcm* p = use(h, "hw_free");
    update(p);
    if (p->state != SND_PCM_STATE_SETUP && p->state != SND_PCM_STATE_PREPARED) return -EBADFD;
    drop_pending(p);
    p->state = SND_PCM_STATE_OPEN;
    return 0;
}
#define GETTER(NAME, TYPE, EXPR)                                      \
    int NAME(const snd_pcm_hw_params_t* q, TYPE* v) {                 \
        const Params* r = par(q, #NAME);                              \
        if (!r) return -EINVAL;                                       \
        if (!(EXPR)) return -EINVAL;                                  \
        *v = (TYPE)(EXPR);                                            \
        return 0;                                                     \
    }
#define GETTERD(NAME, TYPE, EXPR)                                     \
    int NAME(const snd_pcm_hw_params_t* q, TYPE* v, int* dir) {       \
        const Params* r = par(q, #NAME);                              \
        if (!r) return -EINVAL;                                       \
        if (!(EXPR)) return -EINVAL;                                  \
        *v = (TYPE)(EXPR);                                            \
        if (dir) *dir = 0;                                            \
        return 0;                                                     \
    }
GETTERD(snd_pcm_hw_params_get_periods_max, unsigned int, devs[r->dev].max_periods)
GETTERD(snd_pcm_hw_params_get_periods_min, unsigned int, devs[r->dev].min_periods)
GETTERD(snd_pcm_hw_params_get_period_size_max, snd_pcm_uframes_t, devs[r->dev].max_period_size)
GETTERD(snd_pcm_hw_params_get_period_size_min, snd_pcm_uframes_t, devs[r->dev].min_period_size)
GETTERD(snd_pcm_hw_params_get_period_time_max, unsigned int, devs[r->dev].max_period_size * 1000000ull / devs[r->dev].min_rate)
GETTERD(snd_pcm_hw_params_get_period_time_min, unsigned int, devs[r->dev].min_period_size * 1000000ull / devs[r->dev].max_rate)
GETTERD(snd_pcm_hw_params_get_periods, unsigned int, r->periods)
GETTERD(snd_pcm_hw_params_get_period_size, snd_pcm_uframes_t, r->period_size)
GETTERD(snd_pcm_hw_params_get_period_time, unsigned int, r->rate ? r->period_size * 1000000ull / r->rate : 0)
GETTERD(snd_pcm_hw_params_get_buffer_time, unsigned int, r->rate ? r->periods * r->period_size * 1000000ull / r->rate : 0)
GETTERD(snd_pcm_hw_params_get_rate, unsigned int, r->rate)
GETTERD(snd_pcm_hw_params_get_rate_max, unsigned int, devs[r->dev].max_rate)
GETTERD(snd_pcm_hw_params_get_rate_min, unsigned int, devs[r->dev].min_rate)
GETTER(snd_pcm_hw_params_get_channels, unsigned int, r->channels)
GETTER(snd_pcm_hw_params_get_channels_max, unsigned int, devs[r->dev].max_channels)
GETTER(snd_pcm_hw_params_get_channels_min, unsigned int, devs[r->dev].min_channels)
GETTER(snd_pcm_hw_params_get_buffer_size, snd_pcm_uframes_t, r->periods* r->period_size)
GETTER(snd_pcm_hw_params_get_buffer_size_max, snd_pcm_uframes_t, devs[r->dev].max_periods * devs[r->dev].max_period_size)
GETTER(snd_pcm_hw_params_get_buffer_size_min, snd_pcm_uframes_t, devs[r->dev].min_periods * devs[r->dev].min_period_size)
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t* q) { return par(q, "get_sbits") ? 16 : -EINVAL; }
const char* snd_strerror(int) { return "simulated error"; }
}
