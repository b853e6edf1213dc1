// File operations of the code under test: faults at the system-call boundary of libstdc++'s file streams.
#include "core.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
static bool armed = false;
static FsFault ff;
static long bytes = 0, calls = 0, fired = 0, since = 0;

void fs_arm(const FsFault& f)
{
    ff    = f;
    armed = true;
    bytes = calls = fired = since = 0;
}
void fs_disarm() { armed = false; }
long fs_writes() { return calls; }
long fs_fired() { return fired; }

// how many of n bytes may be written; -1: fail with errno set
static long admit(int fd, long n)
{
    if (!armed || fd <= 2) return n;
    calls++;
    since++;
    if (ff.eintr_every > 0 && since % ff.eintr_every == 0)
    {
        fired++;
        COUNT("write interrupted (EINTR)");
        since = 0;
        errno = EINTR;
        return -1;
    }
    if (ff.after_bytes >= 0 && bytes + n > ff.after_bytes)
    {
        if (bytes >= ff.after_bytes)
        {
            fired++;
            COUNT("write failed");
            errno = ff.err;
            return -1;
        }
        // the device takes what fits, as a filling disk does
        n = ff.after_bytes - bytes;
        COUNT("write cut short at the failing byte");
    }
    else if (ff.short_every > 0 && n > 1 && calls % ff.short_every == 0)
    {
        fired++;
        COUNT("write cut short");
        n = (n + 1) / 2;
    }
    bytes += n;
    return n;
}
} // namespace sim

extern "C"
{
    ssize_t write(int fd, const void* p, size_t n)
    {
        long k = sim::admit(fd, long(n));
        if (k < 0) return -1;
        return syscall(SYS_write, fd, p, size_t(k));
    }
    ssize_t writev(int fd, const struct iovec* v, int c)
    {
        long total = 0;
        for (int k = 0; k < c; k++) total += long(v[k].iov_len);
        long k = sim::admit(fd, total);
        if (k < 0) return -1;
        if (k == total) return syscall(SYS_writev, fd, v, c);
        // a prefix
        long done = 0;
        for (int j = 0; j < c && done < k; j++)
        {
            long m = long(v[j].iov_len) < k - done ? long(v[j].iov_len) : k - done;
            long w = syscall(SYS_write, fd, v[j].iov_base, size_t(m));
            if (w < 0) return done ? done : -1;
            done += w;
            if (w < m) break;
        }
        return done;
    }
    FILE* fopen64(const char* path, const char* mode)
    {
        static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
        if (sim::armed && sim::ff.open_err)
        {
            sim::fired++;
            COUNT("open failed");
            errno = sim::ff.open_err;
            return nullptr;
        }
        return real(path, mode);
    }
    FILE* fopen(const char* path, const char* mode)
    {
        return fopen64(path, mode);
    }
    int fclose(FILE* f)
    {
        static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
        int r            = real(f);
        if (sim::armed && sim::ff.fail_close)
        {
            sim::fired++;
            COUNT("close failed");
            errno = EIO;
            return EOF;
        }
        return r;
    }
}
