#include "vnet.hpp"
#include "rt.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

namespace vnet
{
static State S;
static char sel_obj, gai_obj;
State& st() { return S; }
void reset() { memset((void*)&S, 0, sizeof S); S.on = true; S.naddr = 1; }
static inline bool w() { return S.on && rt::cur() >= 0; }
static void changed() { rt::wake_user(&sel_obj); }
static int alloc(int kind)
{
    for (int i = 0; i < NS; i++)
        if (S.s[i].kind == FREE)
        {
            memset((void*)&S.s[i], 0, sizeof(Sock));
            S.s[i].kind = kind;
            S.s[i].peer = -1;
            S.s[i].open = true;
            return i;
        }
    rt::abort_check("vnet: out of sockets");
    return -1;
}
static Sock* fdp(int fd)
{
    if (fd < NET0 || fd >= NET0 + NS || S.s[fd - NET0].kind == FREE || !S.s[fd - NET0].open || S.s[fd - NET0].remote) return nullptr;
    return &S.s[fd - NET0];
}
static void gone(int i)
{
    Sock& s = S.s[i];
    if (s.open) return;
    if (s.peer >= 0)
    {
        Sock& p = S.s[s.peer];
        if (p.open) return; // its state is still of use
        p.peer = -1;
        p.kind = FREE;
    }
    s.kind = FREE;
}
static void close_end(int i)
{
    Sock& s = S.s[i];
    s.open = false;
    if (s.kind == SOCK && s.peer >= 0) S.s[s.peer].fin_flight = true;
    if (s.kind == LISTEN)
        for (int k = 0; k < s.nb; k++)
        {
            int a = s.backlog[k];
            if (S.s[a].peer >= 0) { S.s[S.s[a].peer].rst = true; S.s[S.s[a].peer].n = S.s[S.s[a].peer].in_n; }
            S.s[a].open = false;
            gone(a);
        }
    gone(i);
    changed();
}
static int listener(int port)
{
    for (int i = 0; i < NS; i++)
        if (S.s[i].kind == LISTEN && S.s[i].open && S.s[i].port == port) return i;
    return -1;
}
static int attach(int c, int port)
{
    int l = listener(port);
    if (l < 0 || S.s[l].nb == 4) return -1;
    int a = alloc(SOCK);
    S.s[a].conn = C_UP;
    S.s[a].peer = c;
    S.s[a].port = 40000 + c;
    S.s[c].peer = a;
    S.s[c].conn = C_UP;
    S.s[l].backlog[S.s[l].nb++] = a;
    return a;
}
int remote_connect(int port)
{
    int c = alloc(SOCK);
    S.s[c].remote = true;
    if (attach(c, port) < 0) { S.s[c].kind = FREE; return -1; }
    changed();
    return c;
}
static int put(Sock& p, const void* d, int n)
{
    if (p.n + n > CAP) rt::abort_check("vnet: too many bytes in flight");
    memcpy(p.d + p.n, d, n);
    p.n += n;
    return n;
}
void remote_send(int s, const void* d, int n)
{
    Sock& x = S.s[s];
    if (x.peer >= 0 && S.s[x.peer].open) put(S.s[x.peer], d, n);
}
bool in_flight(int s)
{
    Sock& x = S.s[s];
    return x.kind == SOCK && x.open && !x.rst && (x.n > x.in_n || (x.fin_flight && !x.fin));
}
void deliver(int s, int n)
{
    Sock& x = S.s[s];
    if (n < 0 || x.in_n + n > x.n) { x.in_n = x.n; if (n < 0 && x.fin_flight) x.fin = true; }
    else x.in_n += n;
    changed();
}
void kill(int s, bool rst)
{
    for (int e : {s, S.s[s].peer})
        if (e >= 0)
        {
            Sock& x = S.s[e];
            if (rst) { x.rst = true; x.in_n = x.n = 0; }
            else { x.n = x.in_n; x.fin_flight = x.fin = true; x.fin_sent = true; }
        }
    changed();
}
void connected(int s, bool ok)
{
    Sock& x = S.s[s];
    if (x.kind != SOCK || x.conn != C_CONNECTING) return;
    if (ok && attach(s, x.port) >= 0) { changed(); return; }
    x.conn = C_FAILED;
    x.err = ECONNREFUSED;
    changed();
}
void resolved(bool ok)
{
    if (S.gai == 1) { S.gai = ok ? 2 : 3; rt::wake_user(&gai_obj); }
}
int nconn()
{
    int n = 0;
    for (auto& s : S.s) n += s.kind == SOCK && s.conn == C_UP && s.open;
    return n;
}
static int window() { return S.window ? S.window : CAP; }
static int ready(Sock& s) // 1 readable, 2 writable
{
    switch (s.kind)
    {
    case PIPE_R: return s.in_n ? 1 : 0;
    case PIPE_W: return 2;
    case LISTEN: return s.nb ? 1 : 0;
    case SOCK:
        if (s.conn == C_FAILED) return 3;
        if (s.conn != C_UP) return 0;
        {
            int r = 0;
            if (s.in_n || s.fin || s.rst) r |= 1;
            if (s.rst || s.peer < 0 || !S.s[s.peer].open || S.s[s.peer].n < window()) r |= 2;
            return r;
        }
    }
    return 0;
}
static ssize_t recv_(int fd, void* b, size_t n)
{
    Sock* s = fdp(fd);
    if (!s) { errno = EBADF; return -1; }
    rt::point();
    if (s->in_n)
    {
        int k = s->in_n < (int)n ? s->in_n : (int)n;
        memcpy(b, s->d, k);
        memmove(s->d, s->d + k, s->n - k);
        memset(s->d + s->n - k, 0, k);
        s->in_n -= k;
        s->n -= k;
        changed();
        return k;
    }
    if (s->rst) { errno = ECONNRESET; return -1; }
    if (s->fin) return 0;
    errno = EAGAIN;
    return -1;
}
static ssize_t send_(int fd, const void* b, size_t n)
{
    Sock* s = fdp(fd);
    if (!s) { errno = EBADF; return -1; }
    rt::point();
    if (s->conn != C_UP) { errno = ENOTCONN; return -1; }
    if (s->rst || s->fin_sent) { errno = EPIPE; return -1; }
    if (S.snd_max && (int)n > S.snd_max) n = S.snd_max;
    if (s->peer < 0 || !S.s[s->peer].open)
    {
        s->rst = true; // the other end is gone: this is lost, and the answer is a reset
        return n;
    }
    Sock& p = S.s[s->peer];
    int room = window() - p.n;
    if (room <= 0) { errno = EAGAIN; return -1; }
    if ((int)n > room) n = room;
    put(p, b, n);
    return n;
}
static void addr(struct sockaddr* a, socklen_t* l, int port)
{
    if (!a) return;
    struct sockaddr_in i;
    memset(&i, 0, sizeof i);
    i.sin_family = AF_INET;
    i.sin_port = htons(port);
    i.sin_addr.s_addr = htonl(0x0a000001);
    memcpy(a, &i, *l < sizeof i ? *l : sizeof i);
    *l = sizeof i;
}
} // namespace vnet
using namespace vnet;
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
extern "C" {
int vnet_close(int fd)
{
    Sock* s = fdp(fd);
    if (!s) { errno = EBADF; return -1; }
    rt::point();
    close_end(fd - NET0);
    return 0;
}
ssize_t vnet_read(int fd, void* b, size_t n)
{
    Sock* s = fdp(fd);
    if (s && s->kind == PIPE_R)
    {
        if (!s->in_n) { errno = EAGAIN; return -1; }
        int k = s->in_n < (int)n ? s->in_n : (int)n;
        memset(b, 0, k);
        s->in_n -= k;
        return k;
    }
    return recv_(fd, b, n);
}
ssize_t vnet_write(int fd, const void* b, size_t n)
{
    Sock* s = fdp(fd);
    if (s && s->kind == PIPE_W)
    {
        Sock& p = S.s[s->peer];
        p.in_n += n;
        if (p.in_n > 4) p.in_n = 4; // nobody counts them
        changed();
        return n;
    }
    return send_(fd, b, n);
}
int vnet_ioctl(int fd, unsigned long rq, void* a)
{
    Sock* s = fdp(fd);
    if (!s) { errno = EBADF; return -1; }
    if (rq == FIONREAD) *(int*)a = s->in_n;
    return 0;
}
int pipe(int* p)
{
    if (w())
    {
        int a = vnet::alloc(PIPE_R), b = vnet::alloc(PIPE_W);
        S.s[b].peer = a;
        p[0] = NET0 + a;
        p[1] = NET0 + b;
        return 0;
    }
    REAL(int, "pipe", int*);
    return r(p);
}
int socket(int d, int t, int pr) noexcept
{
    if (w())
    {
        if (d != AF_INET) { errno = EAFNOSUPPORT; return -1; }
        return NET0 + vnet::alloc(SOCK);
    }
    REAL(int, "socket", int, int, int);
    return r(d, t, pr);
}
int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s) { errno = EBADF; return -1; }
        s->port = ntohs(((const struct sockaddr_in*)a)->sin_port);
        return 0;
    }
    REAL(int, "bind", int, const struct sockaddr*, socklen_t);
    return r(fd, a, l);
}
int listen(int fd, int n) noexcept
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s) { errno = EBADF; return -1; }
        s->kind = LISTEN;
        return 0;
    }
    REAL(int, "listen", int, int);
    return r(fd, n);
}
int accept(int fd, struct sockaddr* a, socklen_t* l)
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s || s->kind != LISTEN) { errno = EBADF; return -1; }
        rt::point();
        if (!s->nb) { errno = EAGAIN; return -1; }
        if (S.acc_err) { S.acc_err--; errno = ENFILE; return -1; }
        int c = s->backlog[0];
        for (int i = 1; i < s->nb; i++) s->backlog[i - 1] = s->backlog[i];
        s->backlog[--s->nb] = 0;
        addr(a, l, S.s[c].port);
        return NET0 + c;
    }
    REAL(int, "accept", int, struct sockaddr*, socklen_t*);
    return r(fd, a, l);
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int f)
{
    if (w()) return accept(fd, a, l);
    REAL(int, "accept4", int, struct sockaddr*, socklen_t*, int);
    return r(fd, a, l, f);
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s) { errno = EBADF; return -1; }
        rt::point();
        if (s->conn == C_UP) { errno = EISCONN; return -1; }
        s->port = ntohs(((const struct sockaddr_in*)a)->sin_port);
        if (S.refuse > 0) { S.refuse--; errno = ECONNREFUSED; return -1; }
        s->conn = C_CONNECTING;
        errno = EINPROGRESS;
        return -1;
    }
    REAL(int, "connect", int, const struct sockaddr*, socklen_t);
    return r(fd, a, l);
}
ssize_t recv(int fd, void* b, size_t n, int f)
{
    if (w()) return recv_(fd, b, n);
    REAL(ssize_t, "recv", int, void*, size_t, int);
    return r(fd, b, n, f);
}
ssize_t send(int fd, const void* b, size_t n, int f)
{
    if (w()) return send_(fd, b, n);
    REAL(ssize_t, "send", int, const void*, size_t, int);
    return r(fd, b, n, f);
}
ssize_t recvmsg(int fd, struct msghdr* m, int f)
{
    if (w())
    {
        ssize_t t = 0;
        for (size_t i = 0; i < m->msg_iovlen; i++)
        {
            if (!m->msg_iov[i].iov_len) continue;
            ssize_t k = recv_(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
            if (k < 0) return t ? t : -1;
            t += k;
            if (k < (ssize_t)m->msg_iov[i].iov_len) break;
        }
        return t;
    }
    REAL(ssize_t, "recvmsg", int, struct msghdr*, int);
    return r(fd, m, f);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int f)
{
    if (w())
    {
        ssize_t t = 0;
        for (size_t i = 0; i < m->msg_iovlen; i++)
        {
            if (!m->msg_iov[i].iov_len) continue;
            ssize_t k = send_(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
            if (k < 0) return t ? t : -1;
            t += k;
            if (k < (ssize_t)m->msg_iov[i].iov_len) break;
        }
        return t;
    }
    REAL(ssize_t, "sendmsg", int, const struct msghdr*, int);
    return r(fd, m, f);
}
int shutdown(int fd, int how) noexcept
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s) { errno = EBADF; return -1; }
        if (s->conn != C_UP) { errno = ENOTCONN; return -1; }
        if (how != SHUT_RD) { s->fin_sent = true; if (s->peer >= 0) S.s[s->peer].fin_flight = true; }
        if (how != SHUT_WR) s->fin = true;
        changed();
        return 0;
    }
    REAL(int, "shutdown", int, int);
    return r(fd, how);
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) noexcept
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (!s) { errno = EBADF; return -1; }
        memset(v, 0, *l);
        if (lv == SOL_SOCKET && o == SO_ERROR) { *(int*)v = s->err; s->err = 0; }
        return 0;
    }
    REAL(int, "getsockopt", int, int, int, void*, socklen_t*);
    return r(fd, lv, o, v, l);
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) noexcept
{
    if (w()) { if (!fdp(fd)) { errno = EBADF; return -1; } return 0; }
    REAL(int, "setsockopt", int, int, int, const void*, socklen_t);
    return r(fd, lv, o, v, l);
}
static int name_(int fd, struct sockaddr* a, socklen_t* l)
{
    Sock* s = fdp(fd);
    if (!s) { errno = EBADF; return -1; }
    addr(a, l, s->port);
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept
{
    if (w()) return name_(fd, a, l);
    REAL(int, "getsockname", int, struct sockaddr*, socklen_t*);
    return r(fd, a, l);
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept
{
    if (w())
    {
        Sock* s = fdp(fd);
        if (s && s->conn != C_UP) { errno = ENOTCONN; return -1; }
        return name_(fd, a, l);
    }
    REAL(int, "getpeername", int, struct sockaddr*, socklen_t*);
    return r(fd, a, l);
}
int fcntl(int fd, int c, ...)
{
    va_list ap;
    va_start(ap, c);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (w() && fd >= NET0) return 0;
    REAL(int, "fcntl", int, int, void*);
    return r(fd, c, a);
}
int fcntl64(int fd, int c, ...)
{
    va_list ap;
    va_start(ap, c);
    void* a = va_arg(ap, void*);
    va_end(ap);
    return fcntl(fd, c, a);
}
int poll(struct pollfd* f, nfds_t n, int to)
{
    if (w())
    {
        int k = 0;
        for (nfds_t i = 0; i < n; i++)
        {
            Sock* s = fdp(f[i].fd);
            int rd = s ? ready(*s) : 0;
            f[i].revents = (short)(((rd & 1) ? f[i].events & POLLIN : 0) | ((rd & 2) ? f[i].events & POLLOUT : 0));
            if (f[i].revents) k++;
        }
        if (!k && to) rt::abort_check("vnet: poll that waits");
        return k;
    }
    REAL(int, "poll", struct pollfd*, nfds_t, int);
    return r(f, n, to);
}
int select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* t)
{
    if (!w())
    {
        REAL(int, "select", int, fd_set*, fd_set*, fd_set*, struct timeval*);
        return r(n, rd, wr, ex, t);
    }
    int64_t dl = t ? rt::now_ns() + t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1;
    rt::point();
    for (;;)
    {
        int k = 0;
        fd_set ro, wo;
        FD_ZERO(&ro);
        FD_ZERO(&wo);
        bool bad = false;
        for (int i = NET0; i < n; i++)
        {
            bool a = rd && FD_ISSET(i, rd), b = wr && FD_ISSET(i, wr), c = ex && FD_ISSET(i, ex);
            if (!a && !b && !c) continue;
            Sock* s = fdp(i);
            if (!s) { bad = true; continue; }
            int q = ready(*s);
            if (a && (q & 1)) { FD_SET(i, &ro); k++; }
            if (b && (q & 2)) { FD_SET(i, &wo); k++; }
        }
        if (bad) { errno = EBADF; return -1; }
        if (k || (dl >= 0 && rt::now_ns() >= dl))
        {
            if (rd) *rd = ro;
            if (wr) *wr = wo;
            if (ex) FD_ZERO(ex);
            return k;
        }
        rt::block_user(&sel_obj, dl);
    }
}
int getaddrinfo(const char* node, const char* serv, const struct addrinfo* h, struct addrinfo** out)
{
    if (!w())
    {
        REAL(int, "getaddrinfo", const char*, const char*, const struct addrinfo*, struct addrinfo**);
        return r(node, serv, h, out);
    }
    S.gai = 1;
    while (S.gai == 1) rt::block_user(&gai_obj, -1);
    bool ok = S.gai == 2;
    S.gai = 0;
    if (!ok) return EAI_NONAME;
    struct addrinfo* first = nullptr;
    for (int k = S.naddr; k > 0; k--)
    {
        struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
        struct sockaddr_in* i = (struct sockaddr_in*)(a + 1);
        i->sin_family = AF_INET;
        i->sin_port = htons(serv ? atoi(serv) : 0);
        i->sin_addr.s_addr = htonl(0x0a000000 + k);
        a->ai_family = AF_INET;
        a->ai_socktype = SOCK_STREAM;
        a->ai_addrlen = sizeof *i;
        a->ai_addr = (struct sockaddr*)i;
        a->ai_next = first;
        first = a;
    }
    *out = first;
    return 0;
}
void freeaddrinfo(struct addrinfo* a) noexcept
{
    if (!w())
    {
        REAL(void, "freeaddrinfo", struct addrinfo*);
        return r(a);
    }
    while (a)
    {
        struct addrinfo* n = a->ai_next;
        free(a);
        a = n;
    }
}
// no time zone files
struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept
{
    memset(o, 0, sizeof *o);
    long d = *t / 86400, s = *t % 86400;
    o->tm_hour = s / 3600;
    o->tm_min = s / 60 % 60;
    o->tm_sec = s % 60;
    d += 719468;
    long era = d / 146097, doe = d - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    o->tm_mday = doy - (153 * mp + 2) / 5 + 1;
    o->tm_mon = mp < 10 ? mp + 2 : mp - 10;
    o->tm_year = yoe + era * 400 + (o->tm_mon <= 1) - 1900;
    return o;
}
static struct tm the_tm;
struct tm* gmtime(const time_t* t) noexcept { return gmtime_r(t, &the_tm); }
struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { return gmtime_r(t, o); }
struct tm* localtime(const time_t* t) noexcept { return gmtime_r(t, &the_tm); }
}
