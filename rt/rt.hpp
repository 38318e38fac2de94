// Deterministic runtime: fibers instead of threads, an arena that can be checkpointed and restored by memcpy,
// a virtual clock, and interposed libc/pthread symbols. See rt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace rt
{
// ---- arena ------------------------------------------------------------------------------------------
enum : uint32_t { TAG_SUT = 0, TAG_HARNESS = 1 };
enum BlockState : uint32_t { B_LIVE = 0xA11C0DEu, B_FREE = 0xF4EEB10Cu };
struct BlockHdr
{
    uint32_t size;  // usable size (rounded)
    uint32_t req;   // requested size
    uint32_t state; // BlockState
    uint32_t tag;
    uint32_t visit; // canonical hash scratch
    uint32_t epoch; // canonical hash scratch
    uint64_t next;  // free list / quarantine link
};
static_assert(sizeof(BlockHdr) == 32, "");

void init(); // call once at start of main (host mode)

uint32_t set_tag(uint32_t t); // allocation tag for the running world code; returns previous
struct TagScope
{
    uint32_t old;
    explicit TagScope(uint32_t t) : old(set_tag(t)) {}
    ~TagScope() { set_tag(old); }
};
// header of the live block that contains p (any interior pointer), or nullptr
BlockHdr* block_of(const void* p);
bool in_arena(const void* p);

// ---- fibers -----------------------------------------------------------------------------------------
enum FState : uint32_t
{
    F_FREE = 0,
    F_RUNNABLE,
    F_MUTEX,  // wants obj (mutex)
    F_COND,   // waits on obj, then wants obj2 (mutex); deadline >=0 if timed
    F_RDLOCK, // wants obj (rwlock) shared
    F_WRLOCK, // wants obj (rwlock) exclusive
    F_JOIN,   // waits for fiber #aux
    F_SLEEP,  // until deadline
    F_USER,   // blocked in a harness-defined wait on obj (deadline >=0 if timed)
    F_DONE,
    F_DEAD // abandoned (exit, crash)
};
const int MAX_FIBERS = 24;
const size_t STACK_SIZE = 192 * 1024;
struct Fiber
{
    uint64_t sp;
    FState st;
    uint32_t id;
    uint64_t obj, obj2;
    int64_t deadline; // ns, -1 none
    uint32_t aux;
    uint32_t detached;
    uint32_t timedout;
    uint32_t group;    // e.g. server number; inherited by created threads
    uint32_t waitseq;  // FIFO order of condition waits
    uint32_t user;     // harness defined
    uint64_t entry_fn, entry_arg, retval;
    uint64_t cxa[2];
    int err;
    uint32_t tag;
    uint32_t locks; // mutexes held
    void* keys[32];
    char tls[1024];
};
Fiber* fiber(int id);
int cur(); // running fiber id or -1 (host)
int spawn(void (*fn)(void*), void* arg, uint32_t group);
int spawn_fn(std::function<void()>* fn, uint32_t group); // fn must outlive (harness memory)
bool enabled(int id);
void run(int id); // host: run fiber until it reaches a scheduling point or blocks/finishes
// fiber: give control to the host (stay runnable)
void yield_point();
[[noreturn]] void abandon(); // fiber: never resume (state F_DEAD)
void block_user(void* obj, int64_t deadline); // fiber: F_USER
void wake_user(void* obj);
void kill_group(uint32_t group); // host or fiber: mark all fibers of the group dead (not the running one)
bool cond_has_waiter_kill(int id); // spurious wakeup of a fiber in F_COND

// scheduling points: when true, sync operations return to the host before executing
extern bool* points_on;
void point(); // scheduling point if enabled
extern bool* watch_on; // memory access points (tsan instrumentation)
void watch(const void* p, size_t n);
void watch_clear();
void watch_live(); // every block of the code under test that is allocated now

// ---- faults -----------------------------------------------------------------------------------------
enum FaultKind { FK_NONE = 0, FK_EXCEPTION, FK_EXIT, FK_TERMINATE, FK_SIGNAL, FK_HANG, FK_HEAP, FK_STACK };
struct Fault
{
    FaultKind kind;
    int fiber;
    uint32_t group;
    char what[200];
};
Fault* fault();      // last fault (host memory); kind FK_NONE if none
void clear_fault();
void report_fault(FaultKind k, const char* what);

// hooks (set by harness, host pointers)
extern void (**exit_hook)(int code); // called in fiber on ::exit

// ---- clock ------------------------------------------------------------------------------------------
int64_t now_ns();
void set_now_ns(int64_t v);

// ---- checkpoints ------------------------------------------------------------------------------------
struct Ckpt;
Ckpt* save(Ckpt* reuse = nullptr);
void restore(const Ckpt* c);
void release(Ckpt* c);
size_t ckpt_bytes(const Ckpt* c);
uint64_t arena_hash(); // hash of the world's heap
uint64_t threads_hash(); // the heap, and the threads with their stacks
uint64_t raw_hash(); // hash of the complete world memory
// host memory that must be part of checkpoints
void add_region(void* p, size_t n);

extern int nprocs; // processors the code under test sees

// random numbers for the system under test
extern uint32_t (**rand_hook)();

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed);

// host-side shared/global memory helper
void* host_map(size_t n, bool shared);
void abort_check(const char* msg);
} // namespace rt
