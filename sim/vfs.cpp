// Simulated disk: files live in memory; every open/read/write/seek is a fault
// point. Used by std::ifstream/std::ofstream through the C library calls
// libstdc++ makes.
#include "rt.hpp"
#include "rt_int.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace disk {
struct File {
    char path[96];
    bool used;
    long size;
    unsigned char* data;
};
constexpr int NF = 12, NFD = 32, FD0 = 1000;
static unsigned char store[NF][CAP];
static File files[NF];
struct Fd {
    bool used;
    int file;
    long pos;
    int flags;
    long dummy[8];
};
static Fd fds[NFD];
static long full_after = -1, eio_after = -1, reio_after = -1, written = 0, rd = 0;
static int eio_err = EIO, reio_err = EIO;
static int ops = 0, crash_op = -1;
static unsigned torn = 0;
static bool frozen = false;
static unsigned char image_store[NF][CAP];
static long image_size[NF];
static bool frag = false;
static char bad_path[96];
static int bad_err = 0;

static int find(const char* p) {
    for (int i = 0; i < NF; ++i)
        if (files[i].used && strcmp(files[i].path, p) == 0) return i;
    return -1;
}
static int make(const char* p) {
    int i = find(p);
    if (i >= 0) return i;
    for (i = 0; i < NF; ++i)
        if (!files[i].used) {
            files[i].used = true;
            snprintf(files[i].path, sizeof files[i].path, "%s", p);
            files[i].size = 0;
            files[i].data = store[i];
            return i;
        }
    return -1;
}
void put(const char* p, const void* d, size_t n) {
    Quiet q;
    int i = make(p);
    memcpy(files[i].data, d, n);
    files[i].size = (long)n;
}
long size(const char* p) {
    Quiet q;
    int i = find(p);
    return i < 0 ? -1 : files[i].size;
}
size_t get(const char* p, void* out, size_t cap) {
    Quiet q;
    int i = find(p);
    if (i < 0) return 0;
    size_t n = (size_t)files[i].size < cap ? (size_t)files[i].size : cap;
    memcpy(out, files[i].data, n);
    return n;
}
void set_full_after(long b) { full_after = b < 0 ? -1 : written + b; }
void fail_writes_after(long b, int e) {
    eio_after = b < 0 ? -1 : written + b;
    eio_err = e;
}
void fail_reads_after(long b, int e) {
    reio_after = b < 0 ? -1 : rd + b;
    reio_err = e;
}
void crash_after(int o, unsigned t) {
    crash_op = ops + o;
    torn = t;
    frozen = false;
}
bool crashed() { return frozen; }
size_t crash_image(const char* p, void* out, size_t cap) {
    Quiet q;
    int i = find(p);
    if (i < 0) return 0;
    size_t n = (size_t)image_size[i] < cap ? (size_t)image_size[i] : cap;
    memcpy(out, image_store[i], n);
    return n;
}
int write_ops() { return ops; }
int open_files() {
    int n = 0;
    for (auto& f : fds) n += f.used;
    return n;
}
void fragment(bool on) { frag = on; }
void fail_open(const char* p, int e) {
    snprintf(bad_path, sizeof bad_path, "%s", p);
    bad_err = e;
}

static void freeze() {
    for (int i = 0; i < NF; ++i)
        if (files[i].used) {
            memcpy(image_store[i], files[i].data, files[i].size);
            image_size[i] = files[i].size;
        }
    frozen = true;
    count_fault("crash-at-write");
    note("process dies here; what is on disk survives");
}
static void store_bytes(Fd& f, const void* b, long n) {
    File& x = files[f.file];
    if (f.flags & O_APPEND) f.pos = x.size;
    if (f.pos + n > CAP) n = CAP - f.pos;
    if (f.pos > x.size) memset(x.data + x.size, 0, f.pos - x.size);
    memcpy(x.data + f.pos, b, n);
    f.pos += n;
    if (f.pos > x.size) x.size = f.pos;
    written += n;
}
static ssize_t do_write(Fd& f, const void* b, size_t n) {
    rt_sync_point();
    if (frag && fault("write-interrupted", 1, 6)) {
        errno = EINTR;
        return -1;
    }
    size_t m = n;
    if (frag && n > 1 && fault("short-write", 1, 3)) m = 1 + draw((uint32_t)n - 1);
    if (eio_after >= 0 && written + (long)m > eio_after) {
        if (written >= eio_after) {
            count_fault(eio_err == ENOSPC ? "disk-full" : "write-error");
            errno = eio_err;
            return -1;
        }
        m = eio_after - written;
    }
    if (full_after >= 0 && written + (long)m > full_after) {
        if (written >= full_after) {
            count_fault("disk-full");
            errno = ENOSPC;
            return -1;
        }
        m = full_after - written;
    }
    ++ops;
    if (crash_op >= 0 && ops == crash_op && !frozen) {
        // torn write: only part of this call reached the file
        size_t k = m ? torn % (m + 1) : 0;
        Fd save = f;
        File& x = files[f.file];
        long osz = x.size;
        static unsigned char undo[CAP];
        memcpy(undo, x.data, osz);
        store_bytes(f, b, (long)k);
        if (k && k < m) count_fault("torn-write");
        freeze();
        memcpy(x.data, undo, osz);
        x.size = osz;
        written -= (long)k;
        f = save;
    }
    store_bytes(f, b, (long)m);
    note("disk write of %zu bytes, file is now %ld bytes", m, files[f.file].size);
    return (ssize_t)m;
}
static ssize_t do_read(Fd& f, void* b, size_t n) {
    rt_sync_point();
    if (frag && fault("read-interrupted", 1, 6)) {
        errno = EINTR;
        return -1;
    }
    File& x = files[f.file];
    long left = x.size - f.pos;
    if (left < 0) left = 0;
    size_t m = n < (size_t)left ? n : (size_t)left;
    if (frag && m > 1 && fault("short-read", 1, 3)) m = 1 + draw((uint32_t)m - 1);
    if (reio_after >= 0 && rd + (long)m > reio_after) {
        if (rd >= reio_after) {
            count_fault("read-error");
            errno = reio_err;
            return -1;
        }
        m = reio_after - rd;
    }
    rt_range(b, m, true);
    memcpy(b, x.data + f.pos, m);
    f.pos += m;
    rd += m;
    return (ssize_t)m;
}
static Fd* by_fd(int fd) {
    if (fd < FD0 || fd >= FD0 + NFD || !fds[fd - FD0].used) return nullptr;
    return &fds[fd - FD0];
}
static Fd* by_fp(FILE* p) {
    auto a = (char*)p, lo = (char*)fds;
    if (a < lo || a >= lo + sizeof fds) return nullptr;
    return (Fd*)p;
}
static int do_open(const char* path, int flags) {
    if (bad_path[0] && strcmp(path, bad_path) == 0) {
        count_fault("open-refused");
        errno = bad_err;
        return -1;
    }
    int i = find(path);
    if (i < 0) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        i = make(path);
        if (i < 0) {
            errno = ENOSPC;
            return -1;
        }
    }
    for (int k = 0; k < NFD; ++k)
        if (!fds[k].used) {
            fds[k].used = true;
            fds[k].file = i;
            fds[k].pos = 0;
            fds[k].flags = flags;
            if (flags & O_TRUNC) files[i].size = 0;
            note("disk open %s", path);
            return FD0 + k;
        }
    errno = EMFILE;
    return -1;
}
}  // namespace disk
}  // namespace sim

using namespace sim;
using namespace sim::disk;
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

extern "C" {
FILE* fopen64(const char* p, const char* m) {
    if (!rt_in_sim()) {
        REAL(FILE*, fopen64, const char*, const char*);
        return real(p, m);
    }
    Quiet q;
    int fl = 0;
    bool plus = strchr(m, '+');
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    if (m[0] == 'w') fl = O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
    if (m[0] == 'a') fl = O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
    int fd = do_open(p, fl);
    return fd < 0 ? nullptr : (FILE*)&fds[fd - FD0];
}
FILE* fopen(const char* p, const char* m) {
    if (!rt_in_sim()) {
        REAL(FILE*, fopen, const char*, const char*);
        return real(p, m);
    }
    return fopen64(p, m);
}
int fileno(FILE* f) {
    if (Fd* x = by_fp(f)) return FD0 + (int)(x - fds);
    REAL(int, fileno, FILE*);
    return real(f);
}
int fclose(FILE* f) {
    if (Fd* x = by_fp(f)) {
        if (!x->used) fail("file-misuse", "a file was closed twice");
        x->used = false;
        note("disk close");
        return 0;
    }
    REAL(int, fclose, FILE*);
    return real(f);
}
int open64(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!rt_in_sim()) {
        REAL(int, open64, const char*, int, ...);
        return real(p, fl, mode);
    }
    Quiet q;
    return do_open(p, fl);
}
int open(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!rt_in_sim()) {
        REAL(int, open, const char*, int, ...);
        return real(p, fl, mode);
    }
    Quiet q;
    return do_open(p, fl);
}
int close(int fd) {
    if (Fd* x = by_fd(fd)) {
        x->used = false;
        note("disk close");
        return 0;
    }
    REAL(int, close, int);
    return real(fd);
}
int fflush(FILE* f) {
    if (f && by_fp(f)) return 0;
    REAL(int, fflush, FILE*);
    return real(f);
}
int setvbuf(FILE* f, char* b, int m, size_t n) {
    if (by_fp(f)) return 0;
    REAL(int, setvbuf, FILE*, char*, int, size_t);
    return real(f, b, m, n);
}
ssize_t read(int fd, void* b, size_t n) {
    if (Fd* x = by_fd(fd)) {
        Quiet q;
        return do_read(*x, b, n);
    }
    REAL(ssize_t, read, int, void*, size_t);
    return real(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (Fd* x = by_fd(fd)) {
        rt_range(b, n, false);
        Quiet q;
        return do_write(*x, b, n);
    }
    REAL(ssize_t, write, int, const void*, size_t);
    return real(fd, b, n);
}
ssize_t writev(int fd, const iovec* v, int c) {
    if (Fd* x = by_fd(fd)) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            rt_range(v[i].iov_base, v[i].iov_len, false);
            Quiet q;
            ssize_t k = do_write(*x, v[i].iov_base, v[i].iov_len);
            if (k < 0) return t ? t : -1;
            t += k;
            if ((size_t)k < v[i].iov_len) break;
        }
        return t;
    }
    REAL(ssize_t, writev, int, const iovec*, int);
    return real(fd, v, c);
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (Fd* x = by_fd(fd)) {
        off64_t p = w == SEEK_SET ? o : w == SEEK_CUR ? x->pos + o : files[x->file].size + o;
        if (p < 0) {
            errno = EINVAL;
            return -1;
        }
        x->pos = p;
        return p;
    }
    REAL(off64_t, lseek64, int, off64_t, int);
    return real(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) {
    if (by_fd(fd)) return lseek64(fd, o, w);
    REAL(off_t, lseek, int, off_t, int);
    return real(fd, o, w);
}
int fseek(FILE* f, long o, int w) {
    if (Fd* x = by_fp(f)) return lseek64(FD0 + (int)(x - fds), o, w) < 0 ? -1 : 0;
    REAL(int, fseek, FILE*, long, int);
    return real(f, o, w);
}
long ftell(FILE* f) {
    if (Fd* x = by_fp(f)) return x->pos;
    REAL(long, ftell, FILE*);
    return real(f);
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
    if (Fd* x = by_fp(f)) {
        Quiet q;
        size_t want = s * n, got = 0;
        while (got < want) {
            ssize_t k = do_read(*x, (char*)b + got, want - got);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) break;
            got += k;
        }
        return s ? got / s : 0;
    }
    REAL(size_t, fread, void*, size_t, size_t, FILE*);
    return real(b, s, n, f);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    if (Fd* x = by_fp(f)) {
        rt_range(b, s * n, false);
        Quiet q;
        size_t want = s * n, put = 0;
        while (put < want) {
            ssize_t k = do_write(*x, (const char*)b + put, want - put);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) break;
            put += k;
        }
        return s ? put / s : 0;
    }
    REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
    return real(b, s, n, f);
}
int fstat64(int fd, struct stat64* st) {
    if (Fd* x = by_fd(fd)) {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = files[x->file].size;
        return 0;
    }
    REAL(int, fstat64, int, struct stat64*);
    return real(fd, st);
}
int fstat(int fd, struct stat* st) {
    if (Fd* x = by_fd(fd)) {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = files[x->file].size;
        return 0;
    }
    REAL(int, fstat, int, struct stat*);
    return real(fd, st);
}
int fsync(int fd) {
    if (by_fd(fd)) return 0;
    REAL(int, fsync, int);
    return real(fd);
}
int fdatasync(int fd) {
    if (by_fd(fd)) return 0;
    REAL(int, fdatasync, int);
    return real(fd);
}
int ftruncate64(int fd, off64_t n) {
    if (Fd* x = by_fd(fd)) {
        File& f = files[x->file];
        if (n > f.size) memset(f.data + f.size, 0, n - f.size);
        f.size = n;
        return 0;
    }
    REAL(int, ftruncate64, int, off64_t);
    return real(fd, n);
}
int ftruncate(int fd, off_t n) {
    if (by_fd(fd)) return ftruncate64(fd, n);
    REAL(int, ftruncate, int, off_t);
    return real(fd, n);
}
int ioctl(int fd, unsigned long r, ...) {
    va_list ap;
    va_start(ap, r);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (Fd* x = by_fd(fd)) {
        if (r == FIONREAD) {
            long n = files[x->file].size - x->pos;
            *(int*)a = n > 0 ? (int)n : 0;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    REAL(int, ioctl, int, unsigned long, ...);
    return real(fd, r, a);
}
int poll(struct pollfd* p, nfds_t n, int t) {
    bool ours = n > 0;
    for (nfds_t i = 0; i < n; ++i) ours = ours && by_fd(p[i].fd);
    if (ours) {
        for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events & (POLLIN | POLLOUT);
        return (int)n;
    }
    REAL(int, poll, struct pollfd*, nfds_t, int);
    return real(p, n, t);
}
}
