// Scenarios for byte streams and WAV files (P07..P12): a simulated disk that
// fragments, fails, fills up and crashes under the real stream code.
#include "common.hpp"

#include <string>

#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "parallel.hpp"

namespace {
using namespace h;
using sim::draw;
using sim::range;
using Bytes = std::vector<unsigned char>;

void put16(Bytes& b, unsigned v) {
    b.push_back(v & 255);
    b.push_back(v >> 8 & 255);
}
void put32(Bytes& b, uint32_t v) {
    put16(b, v & 65535);
    put16(b, v >> 16);
}
void puts4(Bytes& b, const char* s) { b.insert(b.end(), s, s + 4); }
uint32_t get32(const Bytes& b, size_t i) { return b[i] | b[i + 1] << 8 | b[i + 2] << 16 | (uint32_t)b[i + 3] << 24; }
unsigned get16(const Bytes& b, size_t i) { return b[i] | b[i + 1] << 8; }

double sample16(unsigned lo, unsigned hi) { return static_cast<double>(static_cast<int16_t>(lo | hi << 8)) / 32767.0; }
double sample8(unsigned v) { return v / 255.0 * 2.0 - 1.0; }
bool close_to(double a, double b) { return a - b < 1e-12 && b - a < 1e-12; }

// A pattern that is cheap, never repeats early, and sometimes spells chunk
// headers, so that anything that loses its place in the file is noticed.
struct Pattern {
    uint32_t seed;
    unsigned char operator()(size_t i) const {
        uint32_t x = seed + static_cast<uint32_t>(i / 8) * 2654435761u;
        x ^= x >> 15;
        if ((x & 7) == 0) return "data\x06\0\0\0"[i % 8];
        if ((x & 7) == 1) return "fmt \x10\0\0\0"[i % 8];
        x = seed ^ static_cast<uint32_t>(i) * 2246822519u;
        x ^= x >> 13;
        x *= 3266489917u;
        return static_cast<unsigned char>(x >> 16);
    }
};

struct WavFile {
    int channels = 1, bits = 16, rate = 8000;
    Bytes bytes;
    std::vector<double> samples;       // what it contains
    std::vector<size_t> sample_end;    // file offset behind each sample
    bool open_ended = false;
    bool ends_with_audio = false;  // nothing at all comes after the last sample
};

void add_junk(Bytes& b, const Pattern& pat, bool big) {
    static const char* ids[] = {"JUNK", "LIST", "fact", "bext", "Data"};
    puts4(b, ids[draw(5)]);
    uint32_t n = draw(4) == 3 ? (big ? 4096 + draw(6000) : static_cast<uint32_t>(upto(300, 100000))) : draw(24, "junk size");
    put32(b, n);
    for (uint32_t i = 0; i < n; ++i) b.push_back(pat(i + 77));
    if (n & 1) b.push_back(0);
}

WavFile make_wav(bool big) {
    WavFile w;
    Pattern pat{draw(1 << 16, "content")};
    w.channels = draw(2) ? 1 + draw(8) : 1 + draw(2);
    w.bits = draw(2, "8 bit") ? 8 : 16;
    w.rate = draw(2) ? 8000 : 1 + draw(192000);
    Bytes& b = w.bytes;
    puts4(b, "RIFF");
    put32(b, 0);
    puts4(b, "WAVE");
    for (int k = draw(3) == 2 ? 1 + static_cast<int>(draw(2)) : 0; k > 0; --k) {
        add_junk(b, pat, big);
        sim::probe("chunk-before-format");
    }
    static const int extra[] = {0, 2, 24, 1};
    int ex = extra[draw(4, "format extension")];
    if (ex) sim::probe("extended-format");
    puts4(b, "fmt ");
    put32(b, 16 + ex);
    put16(b, 1);
    put16(b, w.channels);
    put32(b, w.rate);
    put32(b, w.rate * w.channels * w.bits / 8);
    put16(b, w.channels * w.bits / 8);
    put16(b, w.bits);
    for (int i = 0; i < ex; ++i) b.push_back(0x5a);
    if (ex & 1) b.push_back(0);
    int chunks = draw(3) == 0 ? 1 : 1 + static_cast<int>(draw(5, "data chunks"));
    size_t pos = 0;
    for (int c = 0; c < chunks; ++c) {
        if (draw(3) == 2) {
            add_junk(b, pat, big);
            sim::probe("junk-between-data");
        }
        uint32_t n;
        switch (draw(5, "data size class")) {
            case 0: n = 1 + draw(8); break;
            case 1: n = draw(64); break;
            case 2: n = static_cast<uint32_t>(upto(400, 90000)); break;
            case 3: n = 0; break;
            default: n = big ? draw(9000) : draw(64); break;
        }
        n *= w.bits / 8;
        puts4(b, "data");
        put32(b, n);
        size_t at = b.size();
        for (uint32_t i = 0; i < n; ++i) b.push_back(pat(pos++));
        for (uint32_t i = 0; i < n; i += w.bits / 8) {
            w.samples.push_back(w.bits == 16 ? sample16(b[at + i], b[at + i + 1]) : sample8(b[at + i]));
            w.sample_end.push_back(at + i + w.bits / 8);
        }
        if ((n & 1) && !(c == chunks - 1 && draw(2))) {
            b.push_back(0);
            if (c < chunks - 1) sim::probe("padded-data-chunk");
        }
        if (chunks > 1) sim::probe("several-data-chunks");
        w.ends_with_audio = n > 0;
    }
    if (b.size() % 2 == 0 && draw(4) == 3) {
        add_junk(b, pat, big);
        sim::probe("junk-behind-data");
        w.ends_with_audio = false;
    }
    uint32_t riff = static_cast<uint32_t>(b.size()) - 8;
    b[4] = riff & 255, b[5] = riff >> 8 & 255, b[6] = riff >> 16 & 255, b[7] = riff >> 24;
    return w;
}

// A file whose recorder did not know the size: sizes claim the maximum.
void make_open_ended(WavFile& w) {
    Bytes& b = w.bytes;
    Pattern pat{draw(1 << 16)};
    b.clear();
    w.samples.clear();
    w.sample_end.clear();
    static const uint32_t claim[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffff0u};
    uint32_t cl = claim[draw(4)];
    puts4(b, "RIFF");
    put32(b, cl);
    puts4(b, "WAVE");
    puts4(b, "fmt ");
    put32(b, 16);
    put16(b, 1);
    put16(b, w.channels);
    put32(b, w.rate);
    put32(b, w.rate * w.channels * w.bits / 8);
    put16(b, w.channels * w.bits / 8);
    put16(b, w.bits);
    puts4(b, "data");
    put32(b, cl - 36);
    uint32_t n = draw(600) * (w.bits / 8);
    size_t at = b.size();
    for (uint32_t i = 0; i < n; ++i) b.push_back(pat(i));
    for (uint32_t i = 0; i < n; i += w.bits / 8) {
        w.samples.push_back(w.bits == 16 ? sample16(b[at + i], b[at + i + 1]) : sample8(b[at + i]));
        w.sample_end.push_back(at + i + w.bits / 8);
    }
    w.open_ended = true;
    sim::probe("open-ended-file");
}

/// A stream of the user's own that does not tell how much it read.
class OwnStream : public BaseMIStream {
public:
    Bytes data;
    std::size_t at = 0;
    void seek(int pos) override { at = static_cast<std::size_t>(pos); }
    void read(char* byts, int num) override {
        for (int i = 0; i < num; ++i) {
            if (at >= data.size()) {
                this->stop();
                return;
            }
            byts[i] = static_cast<char>(data[at++]);
        }
    }
};
/// An in-memory stream, a file on the simulated disk, or a stream of the user's own.
struct Input {
    CharIStream mem;
    FIStream file;
    OwnStream own;
    bool on_disk = false, by_user = false, used = false;
    BaseMIStream* s() { return on_disk ? static_cast<BaseMIStream*>(&file) : by_user ? static_cast<BaseMIStream*>(&own) : &mem; }
    void use_own(const Bytes& b) {
        by_user = true;
        own.data = b;
        sim::probe("own-stream");
    }
    void use(const Bytes& b, bool disk, const char* path) {
        on_disk = disk;
        sim::log("input %016llx", (unsigned long long)sim::hash_bytes(b.data(), b.size()));
        if (disk) {
            sim::disk::put(path, b.data(), b.size());
            file.set_path(path);
        } else {
            mem.get_array() = b;
            if (used) mem.seek(0);  // a new stream is at its start
            used = true;
            mem.set_state(BaseMIStream::init);
        }
    }
};

int block_size(bool tiny) { return tiny || draw(3) ? 1 + static_cast<int>(draw(9, "block size")) : 1 + upto(700, 20000); }

void check_format(const WaveReader& r, const WavFile& w) {
    if (r.get_channels() != w.channels || r.get_bits_per_sample() != w.bits || r.get_samplerate() != w.rate || r.get_bytes_per_sample() != w.bits / 8 ||
        r.get_blockalign() != w.channels * w.bits / 8 || r.get_byterate() != static_cast<int>(static_cast<uint32_t>(w.rate * w.channels * w.bits / 8)))
        sim::fail("wrong-format", "read as %d channels, %d bits, %d Hz; the file has %d channels, %d bits, %d Hz", r.get_channels(), r.get_bits_per_sample(), r.get_samplerate(),
                  w.channels, w.bits, w.rate);
}

void check_block(const AudioBuffer& b, const WavFile& w, int frames, size_t pos, size_t have) {
    if (b.size() != static_cast<size_t>(frames) * w.channels || static_cast<int>(b.channels()) != w.channels)
        sim::fail("wrong-block", "asked for %d frames of %d channels, got %zu samples of %d channels", frames, w.channels, b.size(), (int)b.channels());
    if (b.get_samplerate() != w.rate) sim::fail("wrong-block", "block has sample rate %g, the file has %d", b.get_samplerate(), w.rate);
    for (size_t i = 0; i < b.size(); ++i) {
        double want = pos + i < have ? w.samples[pos + i] : 0.0;
        if (!close_to(b.at(i), want))
            sim::fail(pos + i < have ? "wrong-sample" : "not-silent", "sample %zu of %zu is %.9g, expected %.9g (block of %d frames at %zu)", pos + i, have, b.at(i), want, frames, pos);
    }
}

// ---------------------------------------------------------------- P07
void wav_read() {
    sim::set_budget(60000000);
    WaveReader reader;
    int files = draw(3) == 2 ? 2 : 1;
    Input in[2];
    for (int f = 0; f < files; ++f) {
        bool big = draw(4) == 3;
        WavFile w = make_wav(big);
        if (draw(6) == 5) make_open_ended(w);
        bool disk = draw(2, "from disk");
        in[f].use(w.bytes, disk, f ? "b.wav" : "a.wav");
        if (!disk && !w.open_ended && draw(3) == 2) in[f].use_own(w.bytes);
        sim::disk::fragment(draw(2, "fragmented reads"));
        reader.set_stream(in[f].s());
        reader.start();
        if (f) sim::probe("reader-reused");
        check_format(reader, w);
        size_t pos = 0;
        bool fixed = draw(2);
        int bs = block_size(!big);
        long limit = static_cast<long>(w.samples.size()) + 4;
        bool stop_early = draw(8) == 7;
        for (long calls = 0; !reader.done(); ++calls) {
            if (calls > limit) sim::fail("never-done", "reader is not done after %ld blocks of a file with %zu samples", calls, w.samples.size());
            if (pos >= w.samples.size() + static_cast<size_t>(bs) * w.channels && !w.open_ended)
                sim::fail("done-too-late", "reader goes on at sample %zu, the file has %zu", pos, w.samples.size());
            if (!fixed) bs = block_size(!big);
            reader.set_buffer_size(bs);
            auto b = reader.get_data();
            check_block(*b, w, bs, pos, w.samples.size());
            pos += b->size();
            if (w.ends_with_audio && !w.open_ended && pos >= w.samples.size() && !reader.done()) sim::fail("done-too-late", "all %zu samples were delivered and the reader is not done", w.samples.size());
            sim::log("block of %d at %zu", bs, pos);
            if (stop_early && draw(3) == 0) break;
        }
        if (stop_early) {
            reader.stop();
        } else {
            if (pos < w.samples.size()) sim::fail("done-too-early", "reader is done after %zu of %zu samples", pos, w.samples.size());
            reader.set_buffer_size(3);
            auto b = reader.get_data();
            check_block(*b, w, 3, w.samples.size(), w.samples.size());
        }
        if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open after its end was reached");
        sim::nontrivial();
    }
}
sim::Reg r1("P07", "wav_read", wav_read, 3);

// The same file as the source of a chain with a parallel stage in between.
class Sink : public SinkModule<> {};
void wav_chain() {
    sim::set_budget(60000000);
    WavFile w = make_wav(false);
    Input in;
    in.use(w.bytes, draw(2), "a.wav");
    if (!in.on_disk && draw(3) == 2) in.use_own(w.bytes);
    sim::disk::fragment(draw(2));
    Sink sink;
    WaveSource src(in.s());
    bool par = draw(2, "parallel");
    ParallelModule p;
    sink.get_chain_info()->buffer_size = 1 + static_cast<int>(draw(40));
    p.max_size(1 + draw(4));
    if (par)
        sink.link(&p)->link(&src);
    else
        sink.link(&src);
    sink.meta_info_sync();
    sim::race_detection(true);
    sim::schedule_mode(-1, 0);
    sim::begin_hang_watch("a file is played through a chain");
    int bs = sink.get_chain_info()->buffer_size;
    int sessions = in.on_disk ? 1 + static_cast<int>(draw(3)) : 1;
    for (int s = 0; s < sessions; ++s) {
        if (s && draw(2)) {
            bs = sink.get_chain_info()->buffer_size = 1 + static_cast<int>(draw(40));
            sink.meta_info_sync();
            sim::probe("other-block-size-next-session");
        }
        sink.meta_start();
        check_format(src, w);
        if (src.get_info()->channels != w.channels || src.get_info()->sample_rate != w.rate)
            sim::fail("wrong-format", "the source announces %d channels at %g, the file has %d at %g", src.get_info()->channels, static_cast<double>(src.get_info()->sample_rate), w.channels, static_cast<double>(w.rate));
        size_t pos = 0;
        int blocks = static_cast<int>(w.samples.size() / (static_cast<size_t>(bs) * w.channels)) + 2;
        if (draw(3) == 2) blocks = static_cast<int>(draw(blocks));
        for (int i = 0; i < blocks; ++i) {
            if (draw(4) == 3) sim::settle(1000000LL * draw(20));
            sink.meta_process();
            AudioBuffer b(sink.get_buffer());
            check_block(b, w, bs, pos, w.samples.size());
            pos += b.size();
        }
        sink.meta_stop();
        sim::log("session of %zu", pos);
        if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open after the chain was stopped");
    }
    sim::probe(par ? "played-through-parallel-stage" : "played-directly");
}
sim::Reg r1b("P07", "wav_chain", wav_chain, 1);

// ---- recording helpers ----------------------------------------------------
struct Recording {
    int channels = 1, bits = 16, rate = 8000;
    std::vector<double> samples;
};
// Values that survive quantisation exactly, from a byte pattern.
double value_of(const Recording& r, unsigned char a, unsigned char b) {
    if (r.bits == 8) return sample8(a);
    int v = static_cast<int16_t>(a | b << 8);
    if (v < 0) return v / 32768.0;
    return (v + 0.25) / 32767.0 > 1.0 ? 1.0 : (v + 0.25) / 32767.0;
}
Bytes encode(const Recording& r) {
    Bytes b;
    for (double v : r.samples) {
        if (r.bits == 8) {
            b.push_back(static_cast<unsigned char>(static_cast<int>((v + 1.0) / 2.0 * 255.0 + 0.5)));
        } else {
            int x = v < 0 ? static_cast<int>(v * 32768.0) : static_cast<int>(v * 32767.0);
            put16(b, static_cast<unsigned>(x) & 65535);
        }
    }
    return b;
}
Bytes header(const Recording& r, uint32_t riff, uint32_t data) {
    Bytes b;
    puts4(b, "RIFF");
    put32(b, riff);
    puts4(b, "WAVE");
    puts4(b, "fmt ");
    put32(b, 16);
    put16(b, 1);
    put16(b, r.channels);
    put32(b, r.rate);
    put32(b, r.rate * r.channels * r.bits / 8);
    put16(b, r.channels * r.bits / 8);
    put16(b, r.bits);
    puts4(b, "data");
    put32(b, data);
    return b;
}
Recording new_recording() {
    Recording r;
    r.channels = 1 + draw(3);
    r.bits = draw(2, "8 bit") ? 8 : 16;
    r.rate = draw(2) ? 8000 : 1 + draw(192000);
    return r;
}
// Appends one block and returns it ready for the writer.
BufferPointer next_block(Recording& r, const Pattern& pat, bool big) {
    int frames = big ? 1 + static_cast<int>(draw(2500)) : upto(12, 30000, "frames");
    auto b = std::make_unique<AudioBuffer>(frames, r.channels);
    sim::log("record %d frames of %d channels, %d bits, pattern %u", frames, r.channels, r.bits, pat.seed);
    for (size_t i = 0; i < b->size(); ++i) {
        size_t k = r.samples.size();
        double v = value_of(r, pat(r.bits == 8 ? k : 2 * k), pat(2 * k + 1));
        b->at(i) = v;
        r.samples.push_back(v);
    }
    return b;
}
void configure(WaveWriter& w, const Recording& r) {
    // Neither the order of configuration matters, nor what was set before:
    auto set = [&](int what, int channels, int rate, int bits) {
        if (what == 0)
            w.set_channels(channels);
        else if (what == 1)
            w.set_samplerate(rate);
        else if (draw(2))
            w.set_bits_per_sample(bits);
        else
            w.set_bytes_per_sample(bits / 8);
    };
    if (draw(4) == 3) set(static_cast<int>(draw(3)), 1 + static_cast<int>(draw(6)), 1 + static_cast<int>(draw(50000)), draw(2) ? 8 : 16);
    int first = static_cast<int>(draw(3, "first setting")), step = 1 + static_cast<int>(draw(2));
    for (int k = 0; k < 3; ++k) set((first + k * step) % 3, r.channels, r.rate, r.bits);
}
Bytes disk_file(const char* path) {
    long n = sim::disk::size(path);
    Bytes b(n > 0 ? n : 0);
    if (n > 0) sim::disk::get(path, b.data(), b.size());
    return b;
}
void compare_file(const Bytes& got, const Recording& r, const char* when) {
    Bytes data = encode(r);
    Bytes want = header(r, static_cast<uint32_t>(36 + data.size()), static_cast<uint32_t>(data.size()));
    want.insert(want.end(), data.begin(), data.end());
    if (got.size() != want.size()) sim::fail("wrong-file", "%s: the file has %zu bytes, expected %zu", when, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (got[i] != want[i]) sim::fail("wrong-file", "%s: byte %zu is %02x, expected %02x", when, i, got[i], want[i]);
}
void read_back(const Bytes& bytes, const Recording& r, const char* when, bool whole) {
    Input in;
    in.use(bytes, draw(2), "back.wav");
    WaveReader rd(in.s());
    rd.start();
    size_t pos = 0;
    Bytes enc = encode(r);
    WavFile w;
    w.channels = r.channels;
    w.bits = r.bits;
    w.rate = r.rate;
    for (size_t i = 0; i < r.samples.size(); ++i) w.samples.push_back(r.bits == 8 ? sample8(enc[i]) : sample16(enc[2 * i], enc[2 * i + 1]));
    if (whole) check_format(rd, w);
    for (long calls = 0; !rd.done(); ++calls) {
        if (calls > static_cast<long>(w.samples.size()) + 4) sim::fail("never-done", "%s: reading does not end", when);
        int bs = 1 + static_cast<int>(draw(2) ? draw(9) : 200 + draw(900));
        rd.set_buffer_size(bs);
        auto b = rd.get_data();
        bool silent = false;
        for (size_t i = 0; i < b->size(); ++i, ++pos) {
            double v = b->at(i);
            if (pos < w.samples.size() && close_to(v, w.samples[pos])) {
                if (silent && v != 0.0) sim::fail("wrong-audio", "%s: sample %zu follows silence", when, pos);
                continue;
            }
            if (v != 0.0)
                sim::fail("wrong-audio", "%s: sample %zu reads %.9g, recorded was %.9g", when, pos, v, pos < w.samples.size() ? w.samples[pos] : 0.0);
            if (whole && pos < w.samples.size()) sim::fail("lost-audio", "%s: sample %zu is missing", when, pos);
            silent = true;
        }
    }
    if (whole && pos < w.samples.size()) sim::fail("lost-audio", "%s: only %zu of %zu samples can be read", when, pos, w.samples.size());
    rd.stop();
}

void round_trip() {
    sim::set_budget(60000000);
    WaveWriter writer;
    int files = 1 + static_cast<int>(draw(3) == 2);
    CharOStream mem[2];
    FOStream file[2];
    sim::disk::fragment(draw(2, "fragmented I/O"));
    for (int f = 0; f < files; ++f) {
        if (f) sim::probe("writer-reused");
        Recording r = new_recording();
        Pattern pat{draw(1 << 16)};
        bool disk = draw(2, "to disk");
        const char* path = f ? "b.wav" : "a.wav";
        BaseMOStream* s = disk ? static_cast<BaseMOStream*>(&file[f]) : &mem[f];
        file[f].set_path(path);
        writer.set_stream(s);
        configure(writer, r);
        if (draw(2)) s->start();  // some users open the stream themselves
        writer.start();
        int blocks = static_cast<int>(draw(7, "blocks"));
        for (int i = 0; i < blocks; ++i) writer.write_data(next_block(r, pat, draw(6) == 5));
        writer.stop();
        if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open after the recorder was stopped");
        Bytes got = disk ? disk_file(path) : mem[f].get_array();
        compare_file(got, r, "after recording");
        read_back(got, r, "read back", true);
        sim::log("recorded %zu samples", r.samples.size());
        sim::nontrivial();
    }
}
sim::Reg r1c("P07", "round_trip", round_trip, 2);

// ---------------------------------------------------------------- P08
void wav_truncated() {
    sim::set_budget(60000000);
    WavFile w = make_wav(draw(4) == 3);
    Input in;
    bool disk = draw(3) > 0;
    int kind = disk ? static_cast<int>(draw(4, "failure")) : 0;  // 0 truncated, 1 read error, 2 open refused, 3 truncated while playing
    Bytes cut = w.bytes;
    size_t keep = cut.size();
    // aim at the interesting places: inside headers, data and at boundaries
    switch (draw(4, "where")) {
        case 0: keep = draw(static_cast<uint32_t>(cut.size()) + 1); break;
        case 1:
            if (!w.sample_end.empty()) keep = w.sample_end[draw(static_cast<uint32_t>(w.sample_end.size()))];
            break;
        case 2:
            if (!w.sample_end.empty()) keep = w.sample_end[draw(static_cast<uint32_t>(w.sample_end.size()))] - 1;
            break;
        default: keep = cut.size() - (cut.size() > 30 ? draw(30) : 0); break;
    }
    size_t good = 0;  // samples that are completely there
    while (good < w.sample_end.size() && w.sample_end[good] <= keep) ++good;
    if (kind == 0) cut.resize(keep);
    in.use(cut, disk, "a.wav");
    sim::disk::fragment(draw(2));
    if (kind == 1) sim::disk::fail_reads_after(static_cast<long>(keep), 5);
    if (kind == 2) sim::disk::fail_open("a.wav", 13);
    if (kind == 0) sim::count_fault("file-truncated");
    WaveReader r(in.s());
    r.start();
    if (kind == 2) {
        if (!r.done()) sim::fail("failure-hidden", "the file could not be opened and the reader is not done");
        if (in.s()->good()) sim::fail("failure-hidden", "the file could not be opened and the stream reports to be good");
    }
    size_t limit = w.samples.size() + 8, pos = 0;
    bool ended = false, cut_now = false;
    size_t floor_good = good;
    for (size_t calls = 0; !r.done(); ++calls) {
        if (calls > limit) sim::fail("never-done", "reader is not done after %zu blocks", calls);
        if (kind == 3 && !cut_now && draw(3) == 0) {
            // another process truncates the file while it is being read
            cut_now = true;
            sim::count_fault("file-truncated-while-reading");
            cut.resize(keep);
            sim::disk::put("a.wav", cut.data(), cut.size());
        }
        int bs = block_size(true);
        r.set_buffer_size(bs);
        auto b = r.get_data();
        if (r.get_channels() == w.channels) {
            if (static_cast<int>(b->size()) != bs * w.channels) sim::fail("wrong-block", "block of %d frames has %zu samples", bs, b->size());
            for (size_t i = 0; i < b->size(); ++i, ++pos) {
                double v = b->at(i);
                if (!ended && pos < w.samples.size() && close_to(v, w.samples[pos])) continue;
                // an incomplete last sample and everything behind it is silence
                if (v != 0.0) sim::fail("not-a-prefix", "sample %zu of %zu good ones reads %.9g", pos, good, v);
                if (!ended && kind == 0 && pos < floor_good) sim::fail("lost-audio", "sample %zu is in the file (%zu are) but reads as silence", pos, good);
                ended = true;
            }
        }
        sim::log("block %zu pos %zu", calls, pos);
    }
    if (kind == 0 && keep >= 44 && pos < floor_good) sim::fail("lost-audio", "reader is done after %zu samples, %zu are in the file", pos, good);
    r.set_buffer_size(2);
    auto b = r.get_data();
    for (size_t i = 0; i < b->size(); ++i)
        if (b->at(i) != 0.0) sim::fail("not-silent", "a block read after the end is not silent");
    if ((kind == 0 && keep < cut.size()) && in.s()->good()) sim::fail("failure-hidden", "the file ended early and the stream reports to be good");
    r.stop();
    if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open");
    sim::nontrivial();
    // The next file is read as if nothing had happened.
    if (draw(3) == 2) {
        sim::disk::fail_reads_after(-1, 0);
        sim::disk::fail_open("", 0);
        WavFile w2 = make_wav(false);
        Input in2;
        in2.use(w2.bytes, draw(2), "next.wav");
        r.set_stream(in2.s());
        r.start();
        check_format(r, w2);
        size_t p2 = 0;
        for (size_t calls = 0; !r.done(); ++calls) {
            if (calls > w2.samples.size() + 4) sim::fail("never-done", "the next file is never done");
            int bs = block_size(true);
            r.set_buffer_size(bs);
            auto d = r.get_data();
            check_block(*d, w2, bs, p2, w2.samples.size());
            p2 += d->size();
        }
        if (p2 < w2.samples.size()) sim::fail("done-too-early", "the next file is done after %zu of %zu samples", p2, w2.samples.size());
        sim::probe("next-file-after-failure");
    }
}
sim::Reg r2("P08", "wav_truncated", wav_truncated, 1);

// ---------------------------------------------------------------- P09
void wav_corrupt() {
    sim::set_budget(60000000);
    WavFile w = make_wav(draw(5) == 4);
    Bytes b = w.bytes;
    int hits = 1 + static_cast<int>(draw(6, "damaged places"));
    // offsets of fields worth damaging: every chunk header and the format chunk
    std::vector<size_t> fields = {0, 4, 8};
    for (size_t p = 12; p + 8 <= b.size();) {
        fields.push_back(p);
        fields.push_back(p + 4);
        if (memcmp(&b[p], "fmt ", 4) == 0)
            for (size_t k = 8; k < 24; k += 2) fields.push_back(p + k);
        uint64_t n = get32(b, p + 4);
        p += 8 + n + (n & 1);
    }
    static const uint32_t bad[] = {0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xffffu, 0x8000u, 0xfffffff8u, 3, 7};
    for (int k = 0; k < hits && !b.empty(); ++k) {
        size_t at = draw(3) ? fields[draw(static_cast<uint32_t>(fields.size()))] : draw(static_cast<uint32_t>(b.size()));
        if (at >= b.size()) continue;
        switch (draw(6, "damage")) {
            case 0: b[at] ^= static_cast<unsigned char>(1u << draw(8)); break;
            case 1: b[at] = static_cast<unsigned char>(draw(256)); break;
            case 2: {
                uint32_t v = bad[draw(10)];
                for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = static_cast<unsigned char>(v >> 8 * i);
                break;
            }
            case 3: {
                uint32_t v = bad[draw(10)];
                for (size_t i = 0; i < 2 && at + i < b.size(); ++i) b[at + i] = static_cast<unsigned char>(v >> 8 * i);
                break;
            }
            case 4: b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + 1 + draw(12))); break;
            default: b.insert(b.begin() + at, 1 + draw(12), static_cast<unsigned char>(draw(256))); break;
        }
        sim::count_fault("file-damaged");
    }
    if (draw(12) == 11) {
        Pattern pat{draw(1 << 16)};
        for (size_t i = 0; i < b.size(); ++i) b[i] = pat(i);
    }
    Input in;
    in.use(b, draw(2), "a.wav");
    sim::disk::fragment(draw(3) == 2);
    int bs = block_size(true);
    // one block of the announced channel count, the file itself, and some slack
    sim::mem_limit(65536u * 8 * 10 + 65536 * 16);
    sim::begin_hang_watch("a damaged file is being read");
    WaveReader r(in.s());
    r.set_buffer_size(bs);
    r.start();
    size_t limit = b.size() + 16;
    for (size_t calls = 0; !r.done(); ++calls) {
        if (calls > limit) sim::fail("never-done", "a damaged file of %zu bytes is still not done after %zu blocks", b.size(), calls);
        if (draw(4) == 3) {
            bs = block_size(true);
            r.set_buffer_size(bs);
        }
        auto d = r.get_data();
        int ch = r.get_channels();
        if (ch < 0 || d->size() != static_cast<size_t>(bs) * ch) sim::fail("wrong-block", "block of %d frames of %d channels has %zu samples", bs, ch, d->size());
        for (size_t i = 0; i < d->size() && i < 4096; ++i)
            if (!(d->at(i) >= -1.0001 && d->at(i) <= 1.0001)) sim::fail("wild-sample", "sample %zu of a damaged file is %g", i, d->at(i));
        sim::log("block %zu", calls);
    }
    if (sim::oom_count()) sim::fail("memory-blow-up", "reading a damaged file of %zu bytes asked for more memory than one block needs", b.size());
    r.set_buffer_size(1);
    auto d = r.get_data();
    r.stop();
    if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open");
    sim::nontrivial();
}
sim::Reg r3("P09", "wav_corrupt", wav_corrupt, 1);

// ---------------------------------------------------------------- P10
// The file may hold any prefix of what was recorded, with sizes that were
// either corrected or not.
void check_prefix(const Bytes& got, const Recording& r, const char* when) {
    Bytes data = encode(r);
    Bytes zero = header(r, 0, 0), full = header(r, static_cast<uint32_t>(36 + data.size()), static_cast<uint32_t>(data.size()));
    Bytes want = zero;
    want.insert(want.end(), data.begin(), data.end());
    if (got.size() > want.size()) sim::fail("not-a-prefix", "%s: the file has %zu bytes, only %zu were recorded", when, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        if (got[i] == want[i]) continue;
        if (((i >= 4 && i < 8) || (i >= 40 && i < 44)) && got[i] == full[i]) continue;
        sim::fail("not-a-prefix", "%s: byte %zu is %02x, recorded was %02x", when, i, got[i], want[i]);
    }
}
void record_faulty() {
    sim::set_budget(60000000);
    WaveWriter writer;
    FOStream out;
    out.set_path("rec.wav");
    Recording r = new_recording();
    Pattern pat{draw(1 << 16)};
    writer.set_stream(&out);
    configure(writer, r);
    sim::disk::fragment(draw(2));
    int kind = static_cast<int>(draw(4, "disk fault"));  // 0 none, 1 full, 2 error, 3 cannot open
    static const uint32_t reach[] = {60, 400, 9000, 30000};
    long at = draw(reach[draw(4)], "fails after");
    if (kind == 1) sim::disk::set_full_after(at);
    if (kind == 2) sim::disk::fail_writes_after(at, 5);
    if (kind == 3) sim::disk::fail_open("rec.wav", 13);
    bool own = draw(2);
    if (own) {
        out.start();
        if (kind == 3 && out.get_state() != BaseMOStream::err) sim::fail("failure-hidden", "the file could not be opened and the stream is not in the error state");
    }
    uint64_t refused0 = 0;
    auto refused = [&] {
        uint64_t n = 0;
        for (int i = 0; i < sim::shm->nfaults; ++i)
            if (!strcmp(sim::shm->faults[i].name, "disk-full") || !strcmp(sim::shm->faults[i].name, "write-error") || !strcmp(sim::shm->faults[i].name, "open-refused"))
                n += sim::shm->faults[i].count;
        return n - refused0;
    };
    writer.start();
    auto visible = [&](const char* when) {
        if (refused() && out.BaseMOStream::good()) sim::fail("failure-hidden", "%s: the disk refused data and the stream reports to be good", when);
    };
    visible("after start");
    int blocks = 1 + static_cast<int>(draw(8));
    for (int i = 0; i < blocks; ++i) {
        writer.write_data(next_block(r, pat, draw(3) == 2));
        visible("after a block");
        sim::log("block %d refused %llu", i, (unsigned long long)refused());
    }
    bool failed_before_stop = refused();
    writer.stop();
    bool failed = refused();
    if (failed) {
        if (out.BaseFStream::good()) sim::fail("failure-hidden", "the disk refused data and neither the stream nor the file reports it");
        sim::probe(failed_before_stop ? "failed-while-recording" : "failed-at-stop");
    }
    if (sim::disk::open_files() != 0) sim::fail("file-left-open", "the file is still open after the recorder was stopped");
    Bytes got = disk_file("rec.wav");
    sim::log("on disk %zu bytes %016llx", got.size(), (unsigned long long)sim::hash_bytes(got.data(), got.size()));
    check_prefix(got, r, failed ? "after a failed recording" : "after a recording");
    if (!failed) {
        if (!out.BaseFStream::good()) sim::fail("false-alarm", "nothing failed and the file reports an error");
        compare_file(got, r, "after a recording");
    }
    sim::disk::set_full_after(-1);
    sim::disk::fail_writes_after(-1, 0);
    sim::disk::fail_open("", 0);
    read_back(got, r, "read back after the recording", !failed);
    sim::nontrivial();
    // The recorder can be used again once the disk works.
    if (draw(3) == 2) {
        Recording r2 = new_recording();
        configure(writer, r2);
        writer.start();
        int n = static_cast<int>(draw(4));
        for (int i = 0; i < n; ++i) writer.write_data(next_block(r2, pat, false));
        writer.stop();
        compare_file(disk_file("rec.wav"), r2, "recording after the disk recovered");
        sim::probe("recorded-again");
    }
}
sim::Reg r4("P10", "record_faulty", record_faulty, 1);

// ---------------------------------------------------------------- P11
void record_crash() {
    sim::set_budget(60000000);
    Recording r = new_recording();
    Pattern pat{draw(1 << 16)};
    WaveWriter writer;
    FOStream out;
    out.set_path("rec.wav");
    writer.set_stream(&out);
    configure(writer, r);
    sim::disk::fragment(draw(2));
    bool again = draw(3) == 2;
    if (again) {
        // an older, finished recording is being replaced
        Recording old = r;
        Pattern p2{draw(1 << 16)};
        writer.start();
        for (int i = static_cast<int>(draw(5)); i > 0; --i) writer.write_data(next_block(old, p2, draw(4) == 3));
        writer.stop();
    }
    int ops_before = sim::disk::write_ops();
    int target = draw(2) ? 1 + static_cast<int>(draw(4)) : 1 + static_cast<int>(draw(40));
    unsigned torn = draw(3) ? draw(6000) : 0xffffff00u;
    sim::disk::crash_after(target, torn);
    writer.start();
    int blocks = static_cast<int>(draw(7));
    for (int i = 0; i < blocks; ++i) writer.write_data(next_block(r, pat, draw(3) == 2));
    writer.stop();
    (void)ops_before;
    if (!sim::disk::crashed()) {
        compare_file(disk_file("rec.wav"), r, "without a crash");
        return;
    }
    long n = sim::disk::size("rec.wav");
    Bytes img(n + 65536);
    img.resize(sim::disk::crash_image("rec.wav", img.data(), img.size()));
    sim::log("crash image of %zu bytes %016llx", img.size(), (unsigned long long)sim::hash_bytes(img.data(), img.size()));
    check_prefix(img, r, "after the crash");
    read_back(img, r, "read back after the crash", false);
    if (img.size() >= 44 && get32(img, 4) != 0) sim::probe("crashed-during-stop");
    if (img.size() >= 44 && get32(img, 40) != 0 && get32(img, 4) == 0) sim::probe("crashed-between-size-updates");
    sim::nontrivial();
    (void)get16;
}
sim::Reg r5("P11", "record_crash", record_crash, 1);

// ---------------------------------------------------------------- P12
void stream_input() {
    Bytes content(draw(2) ? draw(40) : draw(20000));
    Pattern pat{draw(1 << 16)};
    for (size_t i = 0; i < content.size(); ++i) content[i] = pat(i);
    bool disk = draw(2, "on disk");
    Input in;
    in.use(content, disk, "in.bin");
    sim::disk::fragment(draw(2));
    BaseMIStream& s = *in.s();
    size_t pos = 0;
    enum { Init, Started, Stopped, Err } st = Init;
    auto check_state = [&] {
        BaseMIStream::mstate want = st == Init ? BaseMIStream::init : st == Started ? BaseMIStream::started : st == Stopped ? BaseMIStream::stopped : BaseMIStream::err;
        if (s.get_state() != want) sim::fail("wrong-state", "input stream is in state %d, expected %d", (int)s.get_state(), (int)want);
        if (s.good() != (st == Init || st == Started) || s.bad() == s.good()) sim::fail("wrong-state", "good() is %d in state %d", s.good(), (int)s.get_state());
    };
    bool refuse = disk && draw(4) == 3;
    check_state();
    int ops = 2 + static_cast<int>(draw(14, "operations"));
    for (int i = 0; i < ops; ++i) {
        bool open = st == Started || (!disk && st == Init);
        uint32_t op = draw(6, "operation");
        if (!open) op = 5;
        if (op <= 2) {
            int n = draw(3) == 2 ? static_cast<int>(draw(static_cast<uint32_t>(content.size()) + 20)) : static_cast<int>(draw(30, "bytes"));
            std::vector<char> buf(n + 2, 'x');
            s.read(buf.data() + 1, n);
            size_t have = std::min<size_t>(n, content.size() - pos);
            for (size_t k = 0; k < have; ++k)
                if (static_cast<unsigned char>(buf[k + 1]) != content[pos + k]) sim::fail("wrong-bytes", "byte %zu reads %02x, expected %02x", pos + k, (unsigned char)buf[k + 1], content[pos + k]);
            if (buf[0] != 'x' || buf[n + 1] != 'x') sim::fail("wrong-bytes", "bytes outside the requested range were written");
            if (s.last_read() >= 0 && static_cast<size_t>(s.last_read()) != have) sim::fail("wrong-count", "%zu bytes were read, the stream says %d", have, s.last_read());
            pos += have;
            if (have < static_cast<size_t>(n)) {
                st = Stopped;
                sim::probe("read-past-end");
            }
            sim::log("read %d at %zu", n, pos);
        } else if (op == 3) {
            pos = draw(static_cast<uint32_t>(content.size()) + 1, "seek");
            s.seek(static_cast<int>(pos));
        } else if (op == 4) {
            s.stop();
            st = Stopped;
        } else {
            if (st == Started) {
                s.stop();
                st = Stopped;
            }
            bool bad = refuse && draw(2);
            sim::disk::fail_open(bad ? "in.bin" : "", 13);
            s.start();
            if (bad) {
                st = Err;
            } else {
                st = Started;
                if (disk)
                    pos = 0;
                else
                    s.seek(static_cast<int>(pos = draw(static_cast<uint32_t>(content.size()) + 1)));
            }
        }
        check_state();
    }
    if (st == Started) s.stop();
    if (sim::disk::open_files()) sim::fail("file-left-open", "a stopped stream keeps its file open");
    sim::nontrivial();
}
sim::Reg r6("P12", "stream_input", stream_input, 1);

void stream_output() {
    bool disk = draw(2, "on disk");
    CharOStream mem;
    FOStream file;
    file.set_path("out.bin");
    BaseMOStream& s = disk ? static_cast<BaseMOStream&>(file) : mem;
    sim::disk::fragment(draw(2));
    Bytes model;
    size_t pos = 0;
    Pattern pat{draw(1 << 16)};
    size_t total = 0;
    int sessions = disk ? 1 + static_cast<int>(draw(2)) : 1;
    for (int k = 0; k < sessions; ++k) {
        if (disk || draw(2)) s.start();
        if (disk) {
            model.clear();
            pos = 0;
            if (s.get_state() != BaseMOStream::started) sim::fail("wrong-state", "output stream is in state %d after start", (int)s.get_state());
        }
        int ops = static_cast<int>(draw(14, "operations"));
        for (int i = 0; i < ops; ++i) {
            if (draw(3) < 2) {
                int n = draw(6) == 5 ? static_cast<int>(draw(12000)) : static_cast<int>(draw(30, "bytes"));
                std::vector<char> b(n);
                for (auto& c : b) c = static_cast<char>(pat(total++));
                s.write(b.data(), n);
                if (n > 0 && model.size() < pos + n) model.resize(pos + n);
                for (int j = 0; j < n; ++j) model[pos + j] = static_cast<unsigned char>(b[j]);
                pos += n;
            } else {
                pos = draw(static_cast<uint32_t>(model.size()) + 1, "seek");
                // (what lies between the end of a file and a write beyond it is zero)
                if (disk && draw(6) == 5) {
                    pos = model.size() + draw(3000);
                    sim::probe("beyond-the-end");
                }
                s.seek(static_cast<int>(pos));
                if (pos < model.size()) sim::probe("overwrite");
            }
            if (!s.good()) sim::fail("wrong-state", "nothing failed and the stream is not good");
            if (!disk && mem.get_array() != model) sim::fail("wrong-bytes", "in-memory stream holds %zu bytes, model %zu", mem.get_array().size(), model.size());
        }
        s.stop();
        if (s.get_state() != BaseMOStream::stopped || s.good()) sim::fail("wrong-state", "output stream is in state %d after stop", (int)s.get_state());
        Bytes got = disk ? disk_file("out.bin") : mem.get_array();
        if (got.size() != model.size()) sim::fail("wrong-bytes", "%zu bytes were written, %zu are there", model.size(), got.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (got[i] != model[i]) sim::fail("wrong-bytes", "byte %zu is %02x, written was %02x", i, got[i], model[i]);
        if (sim::disk::open_files()) sim::fail("file-left-open", "a stopped stream keeps its file open");
        sim::log("session of %zu bytes", model.size());
    }
    sim::nontrivial();
}
sim::Reg r6b("P12", "stream_output", stream_output, 1);

}  // namespace
