#include "rt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <exception>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <random>

extern "C" {
extern char __data_start, _end;
}

namespace rt
{
static const uint64_t ARENA = 0x100000000000ull;
static const size_t HEAP_MAX = 16ull << 20;
static const uint64_t STACKS = 0x100100000000ull;
static const size_t PAGE = 4096;
static const int NPAGES = HEAP_MAX / PAGE;
static const int NCLS = 14;
static const uint32_t CLS[NCLS] = {64, 96, 128, 160, 224, 288, 384, 512, 672, 1024, 1344, 2048, 4096, 0};
static const int BIG = NCLS - 1;
static const int QUAR = 24;

struct PageInfo { uint16_t cls; uint16_t back; }; // cls+1 (0 = unused); back = page offset within a big block
struct ArenaHdr
{
    uint64_t brk; // bytes used from ARENA
    int64_t now;
    uint32_t waitseq;
    uint32_t nfib;
    struct { uint64_t head, tail; uint32_t cnt; uint32_t pad; uint64_t bump, bump_end; } cls[NCLS];
    Fiber fib[MAX_FIBERS];
    uint64_t bigfree; // list of freed big blocks (first fit exact pages)
    void* user[8];
};
static ArenaHdr* const A = (ArenaHdr*)ARENA;
static const uint64_t HEAP0 = ARENA + ((sizeof(ArenaHdr) + PAGE - 1) / PAGE) * PAGE;

struct Host
{
    int cur;
    uint32_t tag;
    uint64_t host_sp;
    uint64_t stepno, last_step;
    bool points, watch;
    int nwatch;
    uint64_t w_lo[64], w_hi[64];
    Fault flt;
    void (*exit_hook)(int);
    uint32_t (*rand_hook)();
    // host heap
    uint64_t hbump, hend;
    uint64_t hfree[40];
    uint64_t cxa[2];
    void* keys[32];
    int nkeys;
    void (*keydtor[32])(void*);
    size_t tls_size, tls_align;
    const void* tls_img;
    size_t tls_img_sz;
    char* tls_block;
    struct { char* p; size_t n; } regions[16];
    int nregions;
    char host_tls[1024];
    bool inited;
    PageInfo pages_dummy;
};
static Host* H;
static Host* host()
{
    if (!H)
    {
        H = (Host*)mmap(nullptr, sizeof(Host), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        H->cur = -1;
    }
    return H;
}
static PageInfo* PI; // page info table lives in the arena region in front of the heap (checkpointed)
bool* points_on;
bool* watch_on;
void (**exit_hook)(int);
uint32_t (**rand_hook)();

void abort_check(const char* msg)
{
    fprintf(stderr, "CHECKER ERROR: %s\n", msg);
    _exit(3);
}

int nprocs = 2;
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8)
    {
        uint64_t v;
        memcpy(&v, c, 8);
        h = (h ^ v) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        c += 8;
        n -= 8;
    }
    uint64_t v = 0;
    if (n) { memcpy(&v, c, n); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
    h *= 0xc4ceb9fe1a85ec53ull;
    return h ^ (h >> 29);
}

// ------------------------------------------------------------------ heap
bool in_arena(const void* p) { return (uint64_t)p >= ARENA && (uint64_t)p < ARENA + HEAP_MAX; }

static int cls_for(size_t n)
{
    n += sizeof(BlockHdr);
    for (int i = 0; i < BIG; i++)
        if (n <= CLS[i]) return i;
    return BIG;
}
static uint64_t take_pages(size_t np)
{
    uint64_t a = A->brk;
    if (a + np * PAGE > ARENA + HEAP_MAX) { report_fault(FK_HEAP, "world heap exhausted"); abandon(); }
    A->brk += np * PAGE;
    memset((void*)a, 0, np * PAGE); // what another execution left there must not show up in the hash of this one
    return a;
}
static void init_block(BlockHdr* b, size_t req, size_t usable)
{
    b->size = usable;
    b->req = req;
    b->state = B_LIVE;
    b->tag = H->tag;
    b->visit = b->epoch = 0;
    b->next = 0;
    memset(b + 1, 0xCD, usable);
}
static void* w_malloc(size_t n)
{
    if (n == 0) n = 1;
    if (n > (1ull << 23)) { errno = ENOMEM; return nullptr; }
    int c = cls_for(n);
    if (c == BIG)
    {
        size_t np = (n + sizeof(BlockHdr) + PAGE - 1) / PAGE;
        uint64_t* link = &A->bigfree;
        uint32_t cnt = 0;
        for (uint64_t b = A->bigfree; b; b = ((BlockHdr*)b)->next) cnt++;
        if (cnt > 4)
            while (*link)
            {
                BlockHdr* b = (BlockHdr*)*link;
                if (b->size + sizeof(BlockHdr) == np * PAGE)
                {
                    *link = b->next;
                    init_block(b, n, b->size);
                    return b + 1;
                }
                link = &b->next;
            }
        uint64_t a = take_pages(np);
        size_t p0 = (a - ARENA) / PAGE;
        for (size_t i = 0; i < np; i++) { PI[p0 + i].cls = BIG + 1; PI[p0 + i].back = i; }
        BlockHdr* b = (BlockHdr*)a;
        init_block(b, n, np * PAGE - sizeof(BlockHdr));
        return b + 1;
    }
    auto& k = A->cls[c];
    if (k.cnt > QUAR)
    {
        BlockHdr* b = (BlockHdr*)k.head;
        k.head = b->next;
        if (!k.head) k.tail = 0;
        k.cnt--;
        if (b->state != B_FREE) report_fault(FK_HEAP, "free block header overwritten");
        else
        {
            uint64_t* w = (uint64_t*)(b + 1);
            for (size_t i = 0; i < b->size / 8; i++)
                if (w[i] != 0xDDDDDDDDDDDDDDDDull) { report_fault(FK_HEAP, "write to freed memory"); break; }
        }
        init_block(b, n, CLS[c] - sizeof(BlockHdr));
        return b + 1;
    }
    if (k.bump + CLS[c] > k.bump_end)
    {
        uint64_t a = take_pages(1);
        PI[(a - ARENA) / PAGE].cls = c + 1;
        PI[(a - ARENA) / PAGE].back = 0;
        k.bump = a;
        k.bump_end = a + PAGE;
    }
    BlockHdr* b = (BlockHdr*)k.bump;
    k.bump += CLS[c];
    init_block(b, n, CLS[c] - sizeof(BlockHdr));
    return b + 1;
}
static BlockHdr* hdr_any(const void* p)
{
    uint64_t a = (uint64_t)p;
    if (a < HEAP0 || a >= A->brk) return nullptr;
    size_t pg = (a - ARENA) / PAGE;
    PageInfo i = PI[pg];
    if (!i.cls) return nullptr;
    if (i.cls == BIG + 1) return (BlockHdr*)(ARENA + (pg - i.back) * PAGE);
    uint64_t base = ARENA + pg * PAGE;
    uint32_t sz = CLS[i.cls - 1];
    uint64_t k = (a - base) / sz;
    if ((k + 1) * sz > PAGE) return nullptr;
    return (BlockHdr*)(base + k * sz);
}
BlockHdr* block_of(const void* p)
{
    BlockHdr* b = hdr_any(p);
    if (!b || b->state != B_LIVE || (uint64_t)p < (uint64_t)(b + 1)) return nullptr;
    return b;
}
static void w_free(void* p)
{
    BlockHdr* b = hdr_any(p);
    if (!b || (uint64_t)p < (uint64_t)(b + 1)) { report_fault(FK_HEAP, "free of a bad pointer"); return; }
    if (b->state == B_FREE) { report_fault(FK_HEAP, "double free"); return; }
    if (b->state != B_LIVE) { report_fault(FK_HEAP, "heap block header overwritten"); return; }
    b->state = B_FREE;
    memset(b + 1, 0xDD, b->size);
    b->next = 0;
    int c = PI[((uint64_t)b - ARENA) / PAGE].cls - 1;
    if (c == BIG)
    {
        uint64_t* l = &A->bigfree;
        while (*l) l = &((BlockHdr*)*l)->next;
        *l = (uint64_t)b;
        return;
    }
    auto& k = A->cls[c];
    if (k.tail) ((BlockHdr*)k.tail)->next = (uint64_t)b;
    else k.head = (uint64_t)b;
    k.tail = (uint64_t)b;
    k.cnt++;
}
// host heap: power of two classes with a 16 byte header
// What is allocated before main() belongs to globals, also of the code under test: it is kept in static memory, which is
// part of every checkpoint.
static const size_t PRE = 16384;
alignas(16) static char pre_mem[PRE];
static size_t pre_used;
static bool in_pre(const void* p) { return p >= pre_mem && p < pre_mem + PRE; }
static void* h_malloc(size_t n)
{
    Host* h = host();
    if (!h->inited && n <= 1024)
    {
        int k = 5;
        while (((size_t)1 << k) < n + 16) k++;
        if (pre_used + ((size_t)1 << k) <= PRE)
        {
            char* b = pre_mem + pre_used;
            pre_used += (size_t)1 << k;
            *(uint64_t*)b = k;
            return b + 16;
        }
    }
    int c = 5;
    while (((size_t)1 << c) < n + 16) c++;
    if (h->hfree[c])
    {
        uint64_t b = h->hfree[c];
        h->hfree[c] = *(uint64_t*)(b + 8);
        return (void*)(b + 16);
    }
    size_t sz = (size_t)1 << c;
    if (h->hbump + sz > h->hend)
    {
        size_t chunk = sz > (4u << 20) ? sz : (4u << 20);
        void* m = mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) abort_check("host memory exhausted");
        h->hbump = (uint64_t)m;
        h->hend = h->hbump + chunk;
    }
    uint64_t b = h->hbump;
    h->hbump += sz;
    *(uint64_t*)b = c;
    return (void*)(b + 16);
}
static void h_free(void* p)
{
    if (in_pre(p)) return;
    uint64_t b = (uint64_t)p - 16;
    int c = (int)*(uint64_t*)b & 0x3f;
    *(uint64_t*)(b + 8) = H->hfree[c];
    H->hfree[c] = b;
}
static size_t h_size(void* p) { return ((size_t)1 << (*(uint64_t*)((uint64_t)p - 16) & 0x3f)) - 16; }
static inline bool world() { return H && H->cur >= 0; }

uint32_t set_tag(uint32_t t)
{
    uint32_t o = host()->tag;
    H->tag = t;
    return o;
}

// ------------------------------------------------------------------ fibers
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch,.-rt_switch
.globl rt_tramp
.type rt_tramp,@function
rt_tramp:
    .cfi_startproc
    .cfi_undefined rip
    andq $-16, %rsp
    call rt_fiber_main
    ud2
    .cfi_endproc
.size rt_tramp,.-rt_tramp
)");
extern "C" void rt_switch(uint64_t*, uint64_t);
extern "C" void rt_tramp();

Fiber* fiber(int id) { return &A->fib[id]; }
int cur() { return host()->cur; }
static uint64_t stack_top(int id) { return STACKS + (uint64_t)(id + 1) * (STACK_SIZE + PAGE) - PAGE; }

static void to_host()
{
    Fiber* f = &A->fib[H->cur];
    rt_switch(&f->sp, H->host_sp);
}
[[noreturn]] void abandon()
{
    if (H->cur < 0) abort_check("abandon in host");
    A->fib[H->cur].st = F_DEAD;
    to_host();
    __builtin_trap();
}
extern "C" void rt_abandon_trampoline() { abandon(); }

Fault* fault() { return &host()->flt; }
void clear_fault() { host()->flt.kind = FK_NONE; }
void report_fault(FaultKind k, const char* what)
{
    host();
    if (H->flt.kind != FK_NONE) return; // keep the first
    H->flt.kind = k;
    H->flt.fiber = H->cur;
    H->flt.group = H->cur >= 0 ? A->fib[H->cur].group : 0;
    snprintf(H->flt.what, sizeof(H->flt.what), "%s", what);
}
extern "C" void rt_fiber_main()
{
    Fiber* f = &A->fib[H->cur];
    try
    {
        void* (*fn)(void*) = (void* (*)(void*))f->entry_fn;
        f->retval = (uint64_t)fn((void*)f->entry_arg);
    }
    catch (std::exception& e)
    {
        char b[180];
        snprintf(b, sizeof b, "uncaught exception: %s", e.what());
        report_fault(FK_EXCEPTION, b);
        abandon();
    }
    catch (...)
    {
        report_fault(FK_EXCEPTION, "uncaught exception (not a std::exception)");
        abandon();
    }
    f->st = F_DONE;
    to_host();
    __builtin_trap();
}
int spawn(void (*fn)(void*), void* arg, uint32_t group)
{
    int id = -1;
    for (int i = 0; i < MAX_FIBERS; i++)
        if (A->fib[i].st == F_FREE || ((A->fib[i].st == F_DONE || A->fib[i].st == F_DEAD) && A->fib[i].detached)) { id = i; break; }
    if (id < 0) abort_check("too many fibers");
    Fiber* f = &A->fib[id];
    memset(f, 0, sizeof *f);
    f->id = id;
    f->st = F_RUNNABLE;
    f->entry_fn = (uint64_t)fn;
    f->entry_arg = (uint64_t)arg;
    f->group = group;
    f->deadline = -1;
    f->tag = H->tag;
    memcpy(f->tls, H->tls_img, H->tls_img_sz);
    uint64_t* sp = (uint64_t*)(stack_top(id) - 64);
    *--sp = (uint64_t)rt_tramp; // return address of rt_switch
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = (uint64_t)sp;
    return id;
}
static void call_fn(void* p) { (*(std::function<void()>*)p)(); }
int spawn_fn(std::function<void()>* fn, uint32_t group) { return spawn(call_fn, fn, group); }

static bool mutex_free(uint64_t o);
static bool rw_rd_free(uint64_t o);
static bool rw_wr_free(uint64_t o);
bool enabled(int id)
{
    Fiber* f = &A->fib[id];
    switch (f->st)
    {
        case F_RUNNABLE: return true;
        case F_MUTEX: return mutex_free(f->obj);
        case F_RDLOCK: return rw_rd_free(f->obj);
        case F_WRLOCK: return rw_wr_free(f->obj);
        case F_JOIN: return A->fib[f->aux].st == F_DONE || A->fib[f->aux].st == F_DEAD;
        case F_COND: return f->deadline >= 0 && A->now >= f->deadline && mutex_free(f->obj2);
        case F_SLEEP:
        case F_USER: return f->deadline >= 0 && A->now >= f->deadline;
        default: return false;
    }
}
void run(int id)
{
    if (H->cur >= 0) abort_check("nested run");
    Fiber* f = &A->fib[id];
    if (f->st == F_COND) { f->timedout = 1; f->st = F_MUTEX; f->obj = f->obj2; }
    else if (f->st == F_SLEEP || f->st == F_USER) { f->timedout = 1; f->st = F_RUNNABLE; }
    int herr = errno;
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    H->cxa[0] = g[0];
    H->cxa[1] = g[1];
    g[0] = f->cxa[0];
    g[1] = f->cxa[1];
    uint32_t htag = H->tag;
    H->tag = f->tag;
    if (H->tls_size) { memcpy(H->host_tls, H->tls_block, H->tls_size); memcpy(H->tls_block, f->tls, H->tls_size); }
    errno = f->err;
    H->cur = id;
    H->stepno++;
    memset((void*)(f->sp - 8192), 0, 8192); // (see take_pages)
    rt_switch(&H->host_sp, f->sp);
    H->cur = -1;
    f->err = errno;
    f->tag = H->tag;
    H->tag = htag;
    if (H->tls_size) { memcpy(f->tls, H->tls_block, H->tls_size); memcpy(H->tls_block, H->host_tls, H->tls_size); }
    f->cxa[0] = g[0];
    f->cxa[1] = g[1];
    g[0] = H->cxa[0];
    g[1] = H->cxa[1];
    errno = herr;
    if (*(uint64_t*)(STACKS + (uint64_t)id * (STACK_SIZE + PAGE) + 0) != 0) { report_fault(FK_STACK, "stack overflow"); }
}
void yield_point()
{
    if (!world()) return;
    A->fib[H->cur].st = F_RUNNABLE;
    to_host();
}
void point()
{
    if (world() && H->points) yield_point();
}
void block_user(void* obj, int64_t deadline)
{
    Fiber* f = &A->fib[H->cur];
    f->st = F_USER;
    f->obj = (uint64_t)obj;
    f->deadline = deadline;
    f->timedout = 0;
    to_host();
    f->deadline = -1;
}
void wake_user(void* obj)
{
    for (int i = 0; i < MAX_FIBERS; i++)
        if (A->fib[i].st == F_USER && A->fib[i].obj == (uint64_t)obj) A->fib[i].st = F_RUNNABLE;
}
void kill_group(uint32_t g)
{
    for (int i = 0; i < MAX_FIBERS; i++)
        if (A->fib[i].st != F_FREE && A->fib[i].group == g && i != H->cur) { A->fib[i].st = F_FREE; }
}
bool cond_has_waiter_kill(int id)
{
    Fiber* f = &A->fib[id];
    if (f->st != F_COND) return false;
    f->st = F_MUTEX;
    f->obj = f->obj2;
    return true;
}
void watch(const void* p, size_t n)
{
    if (H->nwatch >= 64) abort_check("too many watches");
    H->w_lo[H->nwatch] = (uint64_t)p;
    H->w_hi[H->nwatch] = (uint64_t)p + n;
    H->nwatch++;
}
void watch_clear() { H->nwatch = 0; }
const uint32_t TAG_WATCHED = 0x100;
void watch_live()
{
    for (uint64_t a = HEAP0; a < A->brk; a += PAGE)
    {
        PageInfo i = PI[(a - ARENA) / PAGE];
        if (!i.cls) continue;
        if (i.cls == BIG + 1)
        {
            BlockHdr* b = (BlockHdr*)a;
            if (!i.back && b->state == B_LIVE && b->tag == TAG_SUT) b->tag |= TAG_WATCHED;
            continue;
        }
        uint32_t sz = CLS[i.cls - 1];
        for (uint32_t k = 0; (k + 1) * sz <= PAGE; k++)
        {
            BlockHdr* b = (BlockHdr*)(a + k * sz);
            if (b->state == B_LIVE && b->tag == TAG_SUT) b->tag |= TAG_WATCHED;
        }
    }
}

int64_t now_ns() { return A->now; }
void set_now_ns(int64_t v) { A->now = v; }

// ------------------------------------------------------------------ signals
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    ucontext_t* c = (ucontext_t*)uc;
    if (sig == SIGVTALRM)
    {
        if (H->cur >= 0 && H->stepno == H->last_step) report_fault(FK_HANG, "code under test does not return (endless loop)");
        else { H->last_step = H->stepno; return; }
    }
    else if (H->cur < 0)
    {
        fprintf(stderr, "CHECKER ERROR: signal %d in host at %p (ip %p)\n", sig, si->si_addr, (void*)c->uc_mcontext.gregs[REG_RIP]);
        signal(sig, SIG_DFL);
        raise(sig);
        return;
    }
    else
    {
        char b[120];
        snprintf(b, sizeof b, "%s (signal %d)", sig == SIGABRT ? "abort/assert" : "invalid memory access", sig);
        report_fault(FK_SIGNAL, b);
    }
    c->uc_mcontext.gregs[REG_RSP] = (stack_top(H->cur) - 8192) & ~15ull;
    c->uc_mcontext.gregs[REG_RSP] -= 8;
    c->uc_mcontext.gregs[REG_RIP] = (greg_t)rt_abandon_trampoline;
}
static void on_terminate()
{
    if (H && H->cur >= 0)
    {
        report_fault(FK_TERMINATE, "std::terminate");
        abandon();
    }
    abort_check("terminate in host");
}

static int phdr_cb(struct dl_phdr_info* info, size_t, void*)
{
    // first entry is the executable
    for (int i = 0; i < info->dlpi_phnum; i++)
    {
        const ElfW(Phdr)& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_TLS)
        {
            H->tls_align = ph.p_align ? ph.p_align : 1;
            H->tls_size = ph.p_memsz;
            H->tls_img = (void*)(info->dlpi_addr + ph.p_vaddr);
            H->tls_img_sz = ph.p_filesz;
        }
    }
    return 1;
}
void init()
{
    host();
    __libc_single_threaded = 0; // the fibers stand for threads: reference counts have to be atomic
    void* m = mmap((void*)ARENA, HEAP_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != (void*)ARENA) abort_check("cannot map arena");
    size_t ss = (size_t)MAX_FIBERS * (STACK_SIZE + PAGE);
    m = mmap((void*)STACKS, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != (void*)STACKS) abort_check("cannot map stacks");
    for (int i = 0; i < MAX_FIBERS; i++) mprotect((void*)stack_top(i), PAGE, PROT_NONE);
    // page info table at the start of the heap
    PI = (PageInfo*)HEAP0;
    A->brk = HEAP0 + ((sizeof(PageInfo) * NPAGES + PAGE - 1) / PAGE) * PAGE;
    A->now = 1000000ll * 1000000000ll;
    points_on = &H->points;
    watch_on = &H->watch;
    exit_hook = &H->exit_hook;
    rand_hook = &H->rand_hook;
    dl_iterate_phdr(phdr_cb, nullptr);
    if (H->tls_size)
    {
        if (H->tls_size > sizeof(H->host_tls)) abort_check("TLS too large");
        uint64_t fs;
        asm("movq %%fs:0,%0" : "=r"(fs));
        size_t off = (H->tls_size + H->tls_align - 1) / H->tls_align * H->tls_align;
        H->tls_block = (char*)(fs - off);
    }
    stack_t st{};
    st.ss_size = 65536;
    st.ss_sp = mmap(nullptr, st.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&st, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval it{};
    it.it_interval.tv_sec = it.it_value.tv_sec = 3;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    H->inited = true;
}

// ------------------------------------------------------------------ checkpoints
struct Seg { uint64_t addr; uint32_t len; };
struct Ckpt
{
    size_t cap, used;
    int nseg;
    Seg seg[MAX_FIBERS + 24];
    char* data;
};
void add_region(void* p, size_t n)
{
    host();
    H->regions[H->nregions].p = (char*)p;
    H->regions[H->nregions].n = n;
    H->nregions++;
}
static int collect(Seg* s)
{
    int n = 0;
    s[n++] = {ARENA, (uint32_t)(A->brk - ARENA)};
    s[n++] = {(uint64_t)&__data_start, (uint32_t)(&_end - &__data_start)};
    for (int i = 0; i < H->nregions; i++) s[n++] = {(uint64_t)H->regions[i].p, (uint32_t)H->regions[i].n};
    for (int i = 0; i < MAX_FIBERS; i++)
    {
        Fiber* f = &A->fib[i];
        if (f->st == F_FREE || f->st == F_DONE || f->st == F_DEAD) continue;
        s[n++] = {f->sp, (uint32_t)(stack_top(i) - f->sp)};
    }
    return n;
}
Ckpt* save(Ckpt* c)
{
    if (!c)
    {
        c = (Ckpt*)h_malloc(sizeof(Ckpt));
        memset(c, 0, sizeof *c);
    }
    c->nseg = collect(c->seg);
    size_t tot = 0;
    for (int i = 0; i < c->nseg; i++) tot += c->seg[i].len;
    if (tot > c->cap)
    {
        if (c->data) munmap(c->data, c->cap);
        c->cap = (tot + tot / 4 + 65535) & ~65535ull;
        c->data = (char*)mmap(nullptr, c->cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (c->data == MAP_FAILED) abort_check("checkpoint memory exhausted");
    }
    char* d = c->data;
    for (int i = 0; i < c->nseg; i++) { memcpy(d, (void*)c->seg[i].addr, c->seg[i].len); d += c->seg[i].len; }
    c->used = tot;
    return c;
}
void restore(const Ckpt* c)
{
    uint64_t old = A->brk;
    const char* d = c->data;
    for (int i = 0; i < c->nseg; i++) { memcpy((void*)c->seg[i].addr, d, c->seg[i].len); d += c->seg[i].len; }
    (void)old;
}
void release(Ckpt* c)
{
    if (!c) return;
    if (c->data) munmap(c->data, c->cap);
    h_free(c);
}
size_t ckpt_bytes(const Ckpt* c) { return c->used; }
uint64_t raw_hash()
{
    Seg s[MAX_FIBERS + 24];
    int n = collect(s);
    uint64_t h = 1;
    for (int i = 0; i < n; i++) h = hash_bytes((void*)s[i].addr, s[i].len, h);
    return h;
}
uint64_t arena_hash() { return hash_bytes((void*)HEAP0, A->brk - HEAP0, 1); }
uint64_t threads_hash()
{
    uint64_t h = arena_hash();
    for (int i = 0; i < MAX_FIBERS; i++)
    {
        Fiber* f = &A->fib[i];
        if (f->st == F_FREE) continue;
        uint64_t k[] = {(uint64_t)i, (uint64_t)f->st, f->obj, f->obj2, (uint64_t)f->deadline, f->aux, f->timedout, f->locks};
        h = hash_bytes(k, sizeof k, h);
        if (f->st == F_DONE || f->st == F_DEAD) continue;
        h = hash_bytes((void*)f->sp, stack_top(i) - f->sp, h);
    }
    h ^= (uint64_t)A->now * 0x9E3779B97F4A7C15ull;
    return h;
}
void* host_map(size_t n, bool shared)
{
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) abort_check("host_map");
    return m;
}

// ------------------------------------------------------------------ sync objects
struct Mx { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static bool mutex_free(uint64_t o) { return ((Mx*)o)->lock == 0; }
struct Rw { int readers; int writer; };
static bool rw_rd_free(uint64_t o) { return ((Rw*)o)->writer == 0; }
static bool rw_wr_free(uint64_t o) { return ((Rw*)o)->writer == 0 && ((Rw*)o)->readers == 0; }

static void block(FState st, void* obj)
{
    Fiber* f = &A->fib[H->cur];
    f->st = st;
    f->obj = (uint64_t)obj;
    to_host();
    f->st = F_RUNNABLE;
}
static void mx_acquire(Mx* m)
{
    while (m->lock) block(F_MUTEX, m);
    m->lock = 1;
    m->owner = H->cur + 1;
    m->count = 1;
    A->fib[H->cur].locks++;
}
static int mx_lock(Mx* m)
{
    if (!world()) return 0;
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->lock && m->owner == H->cur + 1) { m->count++; return 0; }
    point();
    if (m->lock && m->owner == H->cur + 1 && (m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    mx_acquire(m);
    return 0;
}
static int mx_unlock(Mx* m)
{
    if (!world()) return 0;
    if (!m->lock || m->owner != H->cur + 1)
    {
        // real pthreads: undefined; releasing a mutex that is not held is a defect
        report_fault(FK_HEAP, "unlock of a mutex that is not held by the thread");
        return EPERM;
    }
    if (--m->count == 0)
    {
        m->lock = 0;
        m->owner = 0;
        A->fib[H->cur].locks--;
        point();
    }
    return 0;
}
} // namespace rt

using namespace rt;

extern "C" {
// ------------------------------------------------------------------ malloc family
void* malloc(size_t n) { return world() ? w_malloc(n) : h_malloc(n); }
void free(void* p)
{
    if (!p) return;
    if (in_arena(p))
    {
        if (world()) w_free(p);
        return;
    }
    h_free(p);
}
void* calloc(size_t a, size_t b)
{
    void* p = malloc(a * b);
    memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    size_t old = in_arena(p) ? hdr_any(p)->req : h_size(p);
    void* q = malloc(n);
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void* memalign(size_t al, size_t n)
{
    if (al <= 16) return malloc(n);
    if (world())
    {
        if (al <= 32) return w_malloc(n);
        uint64_t p = (uint64_t)w_malloc(n + al);
        return (void*)((p + al - 1) / al * al);
    }
    uint64_t p = (uint64_t)h_malloc(n + al + 16);
    uint64_t q = (p + 16 + al - 1) / al * al;
    // leak-friendly: header copy in front
    *(uint64_t*)(q - 16) = 5; // will be recycled as smallest class
    return (void*)q;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return in_arena(p) ? hdr_any(p)->req : h_size(p); }

// ------------------------------------------------------------------ pthreads
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a) ((Mx*)m)->kind = *(const int*)a & 3;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (world() && ((Mx*)m)->lock) report_fault(FK_HEAP, "destroying a locked mutex");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock((Mx*)m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mx_unlock((Mx*)m); }
int pthread_mutex_trylock(pthread_mutex_t* mm)
{
    if (!world()) return 0;
    Mx* m = (Mx*)mm;
    if (m->lock && m->owner == H->cur + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->count++; return 0; }
    point();
    if (m->lock) return EBUSY;
    mx_acquire(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return mx_lock((Mx*)m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return mx_lock((Mx*)m); }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { *(int*)a = k; return 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_condattr_init(pthread_condattr_t* c) { memset(c, 0, sizeof *c); return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int pthread_condattr_setclock(pthread_condattr_t*, clockid_t) { return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (world())
        for (int i = 0; i < MAX_FIBERS; i++)
            if (A->fib[i].st == F_COND && A->fib[i].obj == (uint64_t)c) report_fault(FK_HEAP, "destroying a condition variable with waiters");
    return 0;
}
static int cond_wait(pthread_cond_t* c, Mx* m, int64_t deadline)
{
    if (!world()) abort_check("cond wait in host");
    point();
    Fiber* f = &A->fib[H->cur];
    if (!m->lock || m->owner != H->cur + 1) { report_fault(FK_HEAP, "condition wait without the mutex"); }
    m->lock = 0;
    m->owner = 0;
    m->count = 0;
    f->locks--;
    f->st = F_COND;
    f->obj = (uint64_t)c;
    f->obj2 = (uint64_t)m;
    f->deadline = deadline;
    f->timedout = 0;
    f->waitseq = ++A->waitseq;
    to_host();
    f->st = F_RUNNABLE;
    f->deadline = -1;
    mx_acquire(m);
    return f->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, (Mx*)m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    return cond_wait(c, (Mx*)m, (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t)
{
    return cond_wait(c, (Mx*)m, (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec);
}
static int cond_wake(pthread_cond_t* c, bool all)
{
    if (!world()) return 0;
    point();
    while (true)
    {
        Fiber* best = nullptr;
        for (int i = 0; i < MAX_FIBERS; i++)
        {
            Fiber* f = &A->fib[i];
            if (f->st == F_COND && f->obj == (uint64_t)c && (!best || f->waitseq < best->waitseq)) best = f;
        }
        if (!best) break;
        best->st = F_MUTEX;
        best->obj = best->obj2;
        if (!all) break;
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return cond_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cond_wake(c, true); }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!world()) return 0;
    Rw* r = (Rw*)l;
    point();
    if (r->writer == H->cur + 1) return EDEADLK; // glibc; libstdc++ throws
    while (r->writer) block(F_RDLOCK, r);
    r->readers++;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!world()) return 0;
    Rw* r = (Rw*)l;
    point();
    if (r->writer == H->cur + 1) return EDEADLK;
    while (r->writer || r->readers) block(F_WRLOCK, r);
    r->writer = H->cur + 1;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!world()) return 0;
    Rw* r = (Rw*)l;
    point();
    if (r->writer) return EBUSY;
    r->readers++;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!world()) return 0;
    Rw* r = (Rw*)l;
    point();
    if (r->writer || r->readers) return EBUSY;
    r->writer = H->cur + 1;
    return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec*) { return pthread_rwlock_rdlock(l); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec*) { return pthread_rwlock_wrlock(l); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const struct timespec*) { return pthread_rwlock_rdlock(l); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const struct timespec*) { return pthread_rwlock_wrlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!world()) return 0;
    Rw* r = (Rw*)l;
    if (r->writer) { r->writer = 0; }
    else if (r->readers > 0) r->readers--;
    else report_fault(FK_HEAP, "unlock of an rwlock that is not held");
    point();
    return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!world()) abort_check("pthread_create in host");
    int id = spawn((void (*)(void*))fn, arg, A->fib[H->cur].group);
    A->fib[id].tag = TAG_SUT;
    *t = (pthread_t)(id + 1000);
    point();
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (world()) A->fib[(int)t - 1000].detached = 1;
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if (!world()) abort_check("join in host");
    int id = (int)t - 1000;
    point();
    Fiber* f = &A->fib[H->cur];
    if (!(A->fib[id].st == F_DONE || A->fib[id].st == F_DEAD))
    {
        f->aux = id;
        block(F_JOIN, nullptr);
    }
    if (r) *r = (void*)A->fib[id].retval;
    A->fib[id].detached = 1;
    return 0;
}
pthread_t pthread_self()
{
    if (!world())
    {
        return (pthread_t)999;
    }
    return (pthread_t)(H->cur + 1000);
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
    host();
    if (H->nkeys >= 32) abort_check("keys");
    *k = H->nkeys;
    H->keydtor[H->nkeys++] = d;
    return 0;
}
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return world() ? A->fib[H->cur].keys[k] : host()->keys[k]; }
int pthread_setspecific(pthread_key_t k, const void* v)
{
    (world() ? A->fib[H->cur].keys : host()->keys)[k] = (void*)v;
    return 0;
}
int pthread_sigmask(int, const sigset_t*, sigset_t* o)
{
    if (o) memset(o, 0, sizeof *o);
    return 0;
}
int sched_yield() { if (world()) yield_point(); return 0; }

// ------------------------------------------------------------------ clock
static bool vclock() { return H && H->inited && H->cur >= 0; }
int clock_gettime(clockid_t id, struct timespec* t)
{
    if (!vclock()) return syscall(SYS_clock_gettime, id, t);
    t->tv_sec = A->now / 1000000000ll;
    t->tv_nsec = A->now % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval* t, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
static int vsleep(int64_t until)
{
    Fiber* f = &A->fib[H->cur];
    f->st = F_SLEEP;
    f->deadline = until;
    f->obj = 0;
    to_host();
    f->deadline = -1;
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec*)
{
    if (!vclock()) return syscall(SYS_nanosleep, r, nullptr);
    return vsleep(A->now + (int64_t)r->tv_sec * 1000000000ll + r->tv_nsec);
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*)
{
    if (!vclock()) return syscall(SYS_nanosleep, r, nullptr);
    int64_t d = (int64_t)r->tv_sec * 1000000000ll + r->tv_nsec;
    return vsleep((flags & TIMER_ABSTIME) ? d : A->now + d);
}
int usleep(useconds_t us)
{
    struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    struct timespec t{(time_t)s, 0};
    nanosleep(&t, nullptr);
    return 0;
}
// ------------------------------------------------------------------ process exit
[[noreturn]] void exit(int code)
{
    if (world())
    {
        if (H->exit_hook) H->exit_hook(code);
        report_fault(FK_EXIT, "the code under test called exit()");
        abandon();
    }
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    real(code);
    __builtin_trap();
}
int get_nprocs() { return rt::nprocs; }
} // extern C

namespace std
{
// randomness: std::random_device is decided by the harness
random_device::result_type random_device::_M_getval() { return *rt::rand_hook ? (*rt::rand_hook)() : 12345u; }
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
} // namespace std

// ------------------------------------------------------------------ tsan ABI: memory access points
extern "C" {
static inline void acc(void* p)
{
    if (!H || H->cur < 0 || !H->watch) return;
    uint64_t a = (uint64_t)p;
    BlockHdr* b = nullptr;
    if (a >= HEAP0 && a < ARENA + HEAP_MAX)
    {
        b = hdr_any(p);
        if (b && b->state == B_FREE) report_fault(FK_HEAP, "access to freed memory");
    }
    if (!H->points) return;
    if (b && (b->tag & TAG_WATCHED)) { yield_point(); return; }
    for (int i = 0; i < H->nwatch; i++)
        if (a >= H->w_lo[i] && a < H->w_hi[i]) { yield_point(); return; }
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { acc(p); }
void __tsan_read2(void* p) { acc(p); }
void __tsan_read4(void* p) { acc(p); }
void __tsan_read8(void* p) { acc(p); }
void __tsan_read16(void* p) { acc(p); }
void __tsan_write1(void* p) { acc(p); }
void __tsan_write2(void* p) { acc(p); }
void __tsan_write4(void* p) { acc(p); }
void __tsan_write8(void* p) { acc(p); }
void __tsan_write16(void* p) { acc(p); }
void __tsan_unaligned_read2(void* p) { acc(p); }
void __tsan_unaligned_read4(void* p) { acc(p); }
void __tsan_unaligned_read8(void* p) { acc(p); }
void __tsan_unaligned_read16(void* p) { acc(p); }
void __tsan_unaligned_write2(void* p) { acc(p); }
void __tsan_unaligned_write4(void* p) { acc(p); }
void __tsan_unaligned_write8(void* p) { acc(p); }
void __tsan_unaligned_write16(void* p) { acc(p); }
void __tsan_volatile_read1(void* p) { acc(p); }
void __tsan_volatile_read4(void* p) { acc(p); }
void __tsan_volatile_read8(void* p) { acc(p); }
void __tsan_volatile_write1(void* p) { acc(p); }
void __tsan_volatile_write4(void* p) { acc(p); }
void __tsan_volatile_write8(void* p) { acc(p); }
void __tsan_read_range(void* p, size_t) { acc(p); }
void __tsan_write_range(void* p, size_t) { acc(p); }
void __tsan_vptr_read(void** p) { acc(p); }
void __tsan_vptr_update(void** p, void*) { acc(p); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(N, T)                                                                                          \
    T __tsan_atomic##N##_load(const volatile T* a, int) { acc((void*)a); return *a; }                              \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { acc((void*)a); *a = v; }                              \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = v; return o; }          \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o + v; return o; }     \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o - v; return o; }     \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o & v; return o; }     \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o | v; return o; }      \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o ^ v; return o; }     \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                            \
    {                                                                                                          \
        acc((void*)a);                                                                                           \
        if (*a == *c) { *a = v; return true; }                                                                   \
        *c = *a;                                                                                                 \
        return false;                                                                                          \
    }                                                                                                          \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y)                          \
    {                                                                                                          \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y);                                          \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
}
