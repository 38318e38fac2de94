#include "vfs.hpp"
#include "rt.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace vfs
{
static State S;
State& st() { return S; }
void reset()
{
    memset((void*)&S, 0, sizeof S);
    for (auto& n : S.name) n.ino = -1;
    S.on = true;
}
int find(const char* p)
{
    for (int i = 0; i < NNAME; i++)
        if (S.name[i].ino >= 0 && !strcmp(S.name[i].n, p)) return i;
    return -1;
}
static int creat_(const char* p)
{
    int i = 0, k = 0;
    while (i < NNAME && S.name[i].ino >= 0) i++;
    while (k < NINO && (S.ino[k].refs || S.ino[k].linked)) k++;
    if (i == NNAME || k == NINO || strlen(p) >= sizeof S.name[0].n) rt::abort_check("vfs: out of space");
    strcpy(S.name[i].n, p);
    S.name[i].ino = k;
    S.ino[k].size = 0;
    S.ino[k].linked = 1;
    memset(S.ino[k].d, 0, FCAP);
    return i;
}
const char* content(const char* p, int* n)
{
    int i = find(p);
    if (i < 0) { *n = -1; return nullptr; }
    *n = S.ino[S.name[i].ino].size;
    return S.ino[S.name[i].ino].d;
}
void set(const char* p, const void* d, int n)
{
    int i = find(p);
    if (i < 0) i = creat_(p);
    Ino& o = S.ino[S.name[i].ino];
    memset(o.d, 0, FCAP);
    memcpy(o.d, d, n);
    o.size = n;
}
void close_all()
{
    for (auto& f : S.fd)
        if (f.used)
        {
            f.used = 0;
            if (f.ino >= 0) S.ino[f.ino].refs--;
        }
}
uint64_t hash()
{
    uint64_t h = 7;
    for (int i = 0; i < NNAME; i++)
        if (S.name[i].ino >= 0)
        {
            uint64_t x = rt::hash_bytes(S.name[i].n, strlen(S.name[i].n), 3);
            h += rt::hash_bytes(S.ino[S.name[i].ino].d, S.ino[S.name[i].ino].size, x);
        }
    return h;
}
static inline bool w() { return S.on && rt::cur() >= 0; }
const int FD0 = 1000;
static Fd* fdp(int fd)
{
    if (fd < FD0 || fd >= FD0 + NFD || !S.fd[fd - FD0].used) return nullptr;
    return &S.fd[fd - FD0];
}
// does this operation fail? 0 no, 1 yes, 2 half of it happens (and the rest of the same write fails)
static int op(const char* what, int wfd = -1)
{
    rt::point();
    S.ops++;
    if (S.die_at && S.ops == S.die_at) rt::abandon();
    if (!S.fail_at) return 0;
    int r = 0;
    if (S.fail_mode == 0) r = S.ops >= S.fail_at && S.ops <= S.fail_at + S.fail_n;
    else if (wfd >= 0 && S.ops == S.fail_at) { r = 2; S.half_fd = wfd; }
    else if (wfd >= 0 && S.ops == S.fail_at + 1 && wfd == S.half_fd) r = 1;
    if (S.fail2_at && S.ops >= S.fail2_at && S.ops <= S.fail2_at + S.fail2_n) r = 1;
    if (r)
    {
        S.failed++;
        if (S.failed == 1) strncpy(S.fail_what, what, sizeof S.fail_what - 1);
    }
    return r;
}
static int open_(const char* p, bool rd, bool wr, bool creat, bool trunc, bool app)
{
    if (op("open")) { errno = EMFILE; return -1; }
    int i = find(p);
    if (i < 0 && !creat) { errno = ENOENT; return -1; }
    if (i < 0) i = creat_(p);
    int k = 0;
    while (k < NFD && S.fd[k].used) k++;
    if (k == NFD) { errno = EMFILE; return -1; }
    Fd& f = S.fd[k];
    f.used = 1;
    f.ino = S.name[i].ino;
    f.pos = 0;
    f.rd = rd; f.wr = wr; f.append = app;
    S.ino[f.ino].refs++;
    if (trunc) { memset(S.ino[f.ino].d, 0, FCAP); S.ino[f.ino].size = 0; }
    return FD0 + k;
}
static int close_(int fd)
{
    Fd* f = fdp(fd);
    if (!f) { errno = EBADF; return -1; }
    f->used = 0;
    S.ino[f->ino].refs--;
    return 0;
}
static ssize_t read_(int fd, void* b, size_t n)
{
    Fd* f = fdp(fd);
    if (!f) { errno = EBADF; return -1; }
    if (op("read")) { errno = EIO; return -1; }
    Ino& o = S.ino[f->ino];
    if (f->pos >= o.size) return 0;
    size_t m = o.size - f->pos;
    if (m > n) m = n;
    memcpy(b, o.d + f->pos, m);
    f->pos += m;
    return m;
}
static ssize_t write_(int fd, const void* b, size_t n)
{
    Fd* f = fdp(fd);
    if (!f || !f->wr) { errno = EBADF; return -1; }
    int bad = op("write", fd);
    if (bad == 2) n /= 2;
    if (bad == 1 || (bad && !n)) { errno = ENOSPC; return -1; }
    Ino& o = S.ino[f->ino];
    if (f->append) f->pos = o.size;
    if (f->pos + n > (size_t)FCAP) rt::abort_check("vfs: file too large");
    memcpy(o.d + f->pos, b, n);
    f->pos += n;
    if (f->pos > o.size) o.size = f->pos;
    return n;
}
static long lseek_(int fd, long off, int wh)
{
    Fd* f = fdp(fd);
    if (!f) { errno = EBADF; return -1; }
    rt::point();
    long p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : S.ino[f->ino].size + off;
    if (p < 0) { errno = EINVAL; return -1; }
    return f->pos = p;
}
static int trunc_(Ino& o, long n)
{
    if (n < 0 || n > FCAP) { errno = EINVAL; return -1; }
    if (n < o.size) memset(o.d + n, 0, o.size - n);
    o.size = n;
    return 0;
}
static char FP[NFD]; // fake FILE objects
} // namespace vfs
using namespace vfs;
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

// descriptors from NET0 on belong to the network (rt/vnet.cpp), if it is there
const int NET0 = 900;
extern "C" {
__attribute__((weak)) int vnet_close(int) { errno = EBADF; return -1; }
__attribute__((weak)) ssize_t vnet_read(int, void*, size_t) { errno = EBADF; return -1; }
__attribute__((weak)) ssize_t vnet_write(int, const void*, size_t) { errno = EBADF; return -1; }
__attribute__((weak)) int vnet_ioctl(int, unsigned long, void*) { errno = EBADF; return -1; }
FILE* fopen(const char* p, const char* m)
{
    if (w())
    {
        bool plus = strchr(m, '+'), wr = m[0] != 'r' || plus, rd = m[0] == 'r' || plus;
        int fd = open_(p, rd, wr, m[0] != 'r', m[0] == 'w', m[0] == 'a');
        return fd < 0 ? nullptr : (FILE*)&FP[fd - FD0];
    }
    REAL(FILE*, "fopen", const char*, const char*);
    return r(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
static inline bool mine(FILE* f) { return (char*)f >= FP && (char*)f < FP + NFD; }
int fclose(FILE* f)
{
    if (mine(f)) return close_(FD0 + (int)((char*)f - FP));
    REAL(int, "fclose", FILE*);
    return r(f);
}
int fflush(FILE* f)
{
    if (f && mine(f)) return 0;
    REAL(int, "fflush", FILE*);
    return r(f);
}
int fileno(FILE* f) noexcept
{
    if (mine(f)) return FD0 + (int)((char*)f - FP);
    REAL(int, "fileno", FILE*);
    return r(f);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (fd >= FD0 && w()) return read_(fd, b, n);
    if (fd >= NET0 && w()) return vnet_read(fd, b, n);
    REAL(ssize_t, "read", int, void*, size_t);
    return r(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (fd >= FD0 && w()) return write_(fd, b, n);
    if (fd >= NET0 && w()) return vnet_write(fd, b, n);
    REAL(ssize_t, "write", int, const void*, size_t);
    return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (fd >= FD0 && w())
    {
        ssize_t t = 0;
        for (int i = 0; i < c; i++)
        {
            if (!v[i].iov_len) continue;
            ssize_t k = write_(fd, v[i].iov_base, v[i].iov_len);
            if (k < 0) return t ? t : -1;
            t += k;
            if (k < (ssize_t)v[i].iov_len) break;
        }
        return t;
    }
    REAL(ssize_t, "writev", int, const struct iovec*, int);
    return r(fd, v, c);
}
off_t lseek(int fd, off_t o, int wh) noexcept
{
    if (fd >= FD0 && w()) return lseek_(fd, o, wh);
    REAL(off_t, "lseek", int, off_t, int);
    return r(fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
int fstat(int fd, struct stat* s) noexcept
{
    if (fd >= FD0 && w())
    {
        Fd* f = fdp(fd);
        if (!f) { errno = EBADF; return -1; }
        memset(s, 0, sizeof *s);
        s->st_mode = S_IFREG | 0644;
        s->st_size = S.ino[f->ino].size;
        s->st_blksize = 512;
        return 0;
    }
    REAL(int, "fstat", int, struct stat*);
    return r(fd, s);
}
int ioctl(int fd, unsigned long rq, ...) noexcept
{
    va_list ap;
    va_start(ap, rq);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (fd >= FD0 && w())
    {
        Fd* f = fdp(fd);
        if (f && rq == FIONREAD) { *(int*)a = f->pos < S.ino[f->ino].size ? S.ino[f->ino].size - f->pos : 0; return 0; }
        errno = ENOTTY;
        return -1;
    }
    if (fd >= NET0 && w()) return vnet_ioctl(fd, rq, a);
    REAL(int, "ioctl", int, unsigned long, void*);
    return r(fd, rq, a);
}
int truncate(const char* p, off_t n) noexcept
{
    if (w())
    {
        if (op("truncate")) { errno = EIO; return -1; }
        int i = find(p);
        if (i < 0) { errno = ENOENT; return -1; }
        return trunc_(S.ino[S.name[i].ino], n);
    }
    REAL(int, "truncate", const char*, off_t);
    return r(p, n);
}
int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
int ftruncate(int fd, off_t n) noexcept
{
    if (fd >= FD0 && w())
    {
        Fd* f = fdp(fd);
        if (!f) { errno = EBADF; return -1; }
        if (op("truncate")) { errno = EIO; return -1; }
        return trunc_(S.ino[f->ino], n);
    }
    REAL(int, "ftruncate", int, off_t);
    return r(fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int fsync(int fd)
{
    if (fd >= FD0 && w()) return op("fsync") ? (errno = EIO, -1) : 0;
    REAL(int, "fsync", int);
    return r(fd);
}
int fdatasync(int fd) { return fsync(fd); }
int remove(const char* p) noexcept
{
    if (w())
    {
        if (op("remove")) { errno = EACCES; return -1; }
        int i = find(p);
        if (i < 0) { errno = ENOENT; return -1; }
        S.ino[S.name[i].ino].linked = 0;
        S.name[i].ino = -1;
        return 0;
    }
    REAL(int, "remove", const char*);
    return r(p);
}
int unlink(const char* p) noexcept
{
    if (w()) return remove(p);
    REAL(int, "unlink", const char*);
    return r(p);
}
int rename(const char* a, const char* b) noexcept
{
    if (w())
    {
        if (op("rename")) { errno = EACCES; return -1; }
        int i = find(a);
        if (i < 0) { errno = ENOENT; return -1; }
        int j = find(b);
        if (j >= 0 && j != i) { S.ino[S.name[j].ino].linked = 0; S.name[j].ino = -1; }
        strcpy(S.name[i].n, b);
        return 0;
    }
    REAL(int, "rename", const char*, const char*);
    return r(a, b);
}
int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (w())
    {
        int a = fl & O_ACCMODE;
        return open_(p, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND);
    }
    REAL(int, "open", const char*, int, int);
    return r(p, fl, mode);
}
int open64(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(p, fl, mode);
}
int access(const char* p, int m) noexcept
{
    if (w()) { if (find(p) >= 0) return 0; errno = ENOENT; return -1; }
    REAL(int, "access", const char*, int);
    return r(p, m);
}
static int stat_(const char* p, struct stat* s)
{
    int i = find(p);
    if (i < 0) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s);
    s->st_mode = S_IFREG | 0644;
    s->st_size = S.ino[S.name[i].ino].size;
    return 0;
}
int stat(const char* p, struct stat* s) noexcept
{
    if (w()) return stat_(p, s);
    REAL(int, "stat", const char*, struct stat*);
    return r(p, s);
}
int lstat(const char* p, struct stat* s) noexcept
{
    if (w()) return stat_(p, s);
    REAL(int, "lstat", const char*, struct stat*);
    return r(p, s);
}
} // extern C
extern "C" int close(int fd)
{
    if (fd >= FD0 && w()) return close_(fd);
    if (fd >= NET0 && w()) return vnet_close(fd);
    REAL(int, "close", int);
    return r(fd);
}
