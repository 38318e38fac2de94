#include "explore.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ex
{
int* worker = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
static double now()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
const int QCAP = 512, PMAX = 1024, NSAMP = 10;
struct Shared
{
    std::atomic<int> lock;
    std::atomic<int> qn;
    std::atomic<int> active;
    std::atomic<int> stop;
    std::atomic<int> timeout;
    std::atomic<uint64_t> states, transitions, ends, probes, depth_cut, budget_cut;
    std::atomic<int> deepest;
    std::atomic<int> viol;
    int vlen;
    Choice vpath[PMAX];
    char vtext[600];
    int slen[NSAMP];
    uint64_t shash[NSAMP];
    Choice spath[NSAMP][PMAX];
    int qlen[QCAP];
    Choice q[QCAP][PMAX];
};
static Shared* S;
static std::atomic<uint64_t>* T;
static uint64_t TM;
static bool visit(uint64_t h)
{
    if (!h) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) & TM;
    for (int n = 0; n < 4096; n++, i = (i + 1) & TM)
    {
        uint64_t v = T[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (!v)
        {
            uint64_t z = 0;
            if (T[i].compare_exchange_strong(z, h)) { S->states.fetch_add(1, std::memory_order_relaxed); return true; }
            if (z == h) return false;
        }
    }
    S->timeout = 1; // table full: coverage is no longer exhaustive
    return true;
}
static void lock()
{
    int z = 0;
    while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; }
}
static void unlock() { S->lock = 0; }

struct Frame
{
    rt::Ckpt* ck = nullptr;
    std::vector<Choice> alt;
    size_t next = 0;
    int bud[NCLS];
    int total;
    size_t plen; // path length at this state
};
struct Worker
{
    System& s;
    const Opt& o;
    rt::Ckpt* root;
    std::vector<Choice> path;
    std::vector<Frame> st;
    std::vector<rt::Ckpt*> pool;
    rt::Ckpt* probe_ck = nullptr;
    double deadline;
    uint64_t tick = 0;
    uint64_t ltrans = 0;

    Worker(System& s_, const Opt& o_, rt::Ckpt* r, double dl) : s(s_), o(o_), root(r), deadline(dl) {}
    bool viol(const char* v)
    {
        lock();
        if (!S->viol)
        {
            S->viol = 1;
            S->vlen = path.size();
            memcpy((void*)S->vpath, path.data(), path.size() * sizeof(Choice));
            snprintf(S->vtext, sizeof S->vtext, "%s", v);
        }
        unlock();
        S->stop = 1;
        return true;
    }
    void leaf()
    {
        uint64_t n = S->ends.fetch_add(1, std::memory_order_relaxed) + 1;
        int k = 0;
        for (uint64_t p = 1; p <= n && k < NSAMP; p *= 8, k++)
            if (p == n)
            {
                memcpy((void*)S->spath[k], path.data(), path.size() * sizeof(Choice));
                S->shash[k] = s.hash();
                S->slen[k] = path.size();
            }
    }
    void donate()
    {
        if (S->qn.load(std::memory_order_relaxed) >= o.workers || st.size() < 1) return;
        for (auto& f : st)
        {
            if (f.next >= f.alt.size()) continue;
            lock();
            if (S->qn < QCAP - 1)
            {
                int k = S->qn;
                size_t n = f.plen;
                if (n + 1 < (size_t)PMAX)
                {
                    memcpy((void*)S->q[k], path.data(), n * sizeof(Choice));
                    S->q[k][n] = f.alt.back();
                    S->qlen[k] = n + 1;
                    f.alt.pop_back();
                    S->qn = k + 1;
                }
            }
            unlock();
            return;
        }
    }
    // explore everything below the current state, reached by `path` with the given budgets
    void run(int* bud, int total)
    {
        st.clear();
        std::vector<Choice> en;
        bool fresh = true; // current state just reached
        int cb[NCLS];
        memcpy(cb, bud, sizeof cb);
        int ct = total;
        for (;;)
        {
            if (S->stop) return;
            if ((++tick & 31) == 0)
            {
                if (now() > deadline) { S->timeout = 1; S->stop = 1; return; }
                donate();
            }
            bool back = false;
            if (fresh)
            {
                fresh = false;
                if ((int)path.size() > S->deepest) S->deepest = path.size();
                if (const char* v = s.violation()) { viol(v); return; }
                en.clear();
                s.enabled(en);
                if (const char* v = s.violation()) { viol(v); return; } // enabled() may look for violations too
                if (en.empty())
                {
                    s.at_end();
                    leaf();
                    if (const char* v = s.violation()) { viol(v); return; }
                    back = true;
                }
                else
                {
                    size_t k = 0;
                    for (auto& c : en)
                        if (cb[c.cls] > 0 && (cb[c.cls] >= (1 << 19) || ct > 0)) en[k++] = c;
                    if (k < en.size()) S->budget_cut.fetch_add(1, std::memory_order_relaxed);
                    en.resize(k);
                    bool probe = s.want_probe();
                    bool multi = en.size() > 1 || probe || en.empty();
                    if (multi && o.dedupe && s.hash_here())
                    {
                        uint64_t h = s.hash();
                        for (int i = 0; i < NCLS; i++)
                            if (cb[i] < (1 << 19)) h = (h ^ (uint64_t)(cb[i] + 1)) * 0x9ddfea08eb382d69ull, h ^= h >> 29;
                        if (ct < (1 << 19)) h = (h ^ (uint64_t)(ct + 1)) * 0x9ddfea08eb382d69ull, h ^= h >> 29;
                        if (!visit(h)) { back = true; probe = false; }
                    }
                    if (probe)
                    {
                        probe_ck = rt::save(probe_ck);
                        s.probe();
                        S->probes.fetch_add(1, std::memory_order_relaxed);
                        if (const char* v = s.violation())
                        {
                            Choice pc;
                            pc.t = 255;
                            path.push_back(pc);
                            viol(v);
                            return;
                        }
                        rt::restore(probe_ck);
                    }
                    if (!back)
                    {
                        if (en.empty()) { leaf(); back = true; }
                        else if ((int)path.size() >= o.max_depth) { S->depth_cut.fetch_add(1, std::memory_order_relaxed); back = true; }
                    }
                    if (!back)
                    {
                        Choice c = en[0];
                        if (en.size() > 1)
                        {
                            Frame f;
                            if (!pool.empty()) { f.ck = rt::save(pool.back()); pool.pop_back(); }
                            else f.ck = rt::save(nullptr);
                            f.alt.assign(en.begin() + 1, en.end());
                            memcpy(f.bud, cb, sizeof cb);
                            f.total = ct;
                            f.plen = path.size();
                            st.push_back(std::move(f));
                        }
                        step(c, cb, ct);
                        fresh = true;
                    }
                }
            }
            if (back)
            {
                bool moved = false;
                while (!st.empty())
                {
                    Frame& f = st.back();
                    if (f.next < f.alt.size())
                    {
                        rt::restore(f.ck);
                        path.resize(f.plen);
                        memcpy(cb, f.bud, sizeof cb);
                        ct = f.total;
                        Choice c = f.alt[f.next++];
                        if (f.next >= f.alt.size())
                        {
                            pool.push_back(f.ck);
                            st.pop_back();
                        }
                        step(c, cb, ct);
                        fresh = true;
                        moved = true;
                        break;
                    }
                    pool.push_back(f.ck);
                    st.pop_back();
                }
                if (!moved) return;
            }
        }
    }
    void step(const Choice& c, int* cb, int& ct)
    {
        if (cb[c.cls] < (1 << 19)) { cb[c.cls]--; ct--; }
        path.push_back(c);
        s.apply(c);
        if ((++ltrans & 63) == 0) S->transitions.fetch_add(64, std::memory_order_relaxed);
    }
    void main()
    {
        for (;;)
        {
            if (S->stop) break;
            Choice p[PMAX];
            int n = -1;
            lock();
            if (S->qn > 0)
            {
                int k = S->qn - 1;
                n = S->qlen[k];
                memcpy((void*)p, S->q[k], n * sizeof(Choice));
                S->qn = k;
                S->active++;
            }
            unlock();
            if (n < 0)
            {
                if (S->active == 0) break;
                if (now() > deadline) { S->timeout = 1; break; }
                usleep(300);
                continue;
            }
            rt::restore(root);
            path.clear();
            int cb[NCLS];
            memcpy(cb, o.budget, sizeof cb);
            int ct = o.total;
            for (int i = 0; i < n; i++) step(p[i], cb, ct);
            run(cb, ct);
            for (auto& f : st) pool.push_back(f.ck);
            st.clear();
            S->active--;
        }
        S->transitions.fetch_add(ltrans & 63);
    }
};

std::string replay(System& s, const std::vector<Choice>& path, FILE* trace)
{
    std::vector<Choice> en;
    for (auto& c : path)
    {
        en.clear();
        s.enabled(en); // may look for violations
        if (const char* v = s.violation()) return v;
        if (c.t == 255)
        {
            if (trace) fprintf(trace, "probe\n");
            s.probe();
        }
        else
        {
            if (trace) fprintf(trace, "%s\n", s.text(c).c_str()), fflush(trace);
            s.apply(c);
        }
        if (const char* v = s.violation()) return v;
    }
    en.clear();
    s.enabled(en);
    if (en.empty() && !s.violation()) s.at_end();
    if (const char* v = s.violation()) return v;
    return "";
}
Result explore(System& s, const Opt& o)
{
    double t0 = now();
    if (!S) S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memset((void*)S, 0, offsetof(Shared, qlen));
    size_t tn = (size_t)1 << o.table_bits;
    T = (std::atomic<uint64_t>*)mmap(nullptr, tn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    TM = tn - 1;
    rt::Ckpt* root = rt::save(nullptr);
    S->qlen[0] = 0;
    S->qn = 1;
    fflush(stdout);
    fflush(stderr);
    std::vector<pid_t> pids;
    for (int i = 0; i < o.workers; i++)
    {
        pid_t p = fork();
        if (p == 0)
        {
            *worker = i + 1;
            Worker* w = new Worker(s, o, root, t0 + o.seconds);
            w->main();
            _exit(0);
        }
        pids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : pids)
    {
        int stt = 0;
        waitpid(p, &stt, 0);
        if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0)
        {
            bad = true;
            S->stop = 1;
            fprintf(stderr, "explorer worker ended with status %x\n", stt);
        }
    }
    Result r;
    r.states = S->states;
    r.transitions = S->transitions;
    r.ends = S->ends;
    r.probes = S->probes;
    r.depth_cut = S->depth_cut;
    r.budget_cut = S->budget_cut;
    r.deepest = S->deepest;
    r.exhaustive = !S->timeout && !S->viol && !r.depth_cut && !bad;
    if (S->viol)
    {
        r.viol = true;
        r.path.assign(S->vpath, S->vpath + S->vlen);
        r.text = S->vtext;
    }
    r.wall = now() - t0;
    munmap((void*)T, tn * 8);
    rt::restore(root);
    rt::release(root);
    // the same executions again, from the root: the end must be the same state
    for (int k = 0; k < NSAMP && !bad; k++)
    {
        if (!S->slen[k]) continue;
        std::vector<Choice> p(S->spath[k], S->spath[k] + S->slen[k]);
        rt::Ckpt* c0 = rt::save(nullptr);
        replay(s, p, nullptr);
        uint64_t h = s.hash();
        rt::restore(c0);
        rt::release(c0);
        if (h != S->shash[k])
        {
            fprintf(stderr, "an execution ends differently when it is replayed:");
            for (auto& c : p) fprintf(stderr, " %s", s.text(c).c_str());
            fprintf(stderr, "\n");
            r.exhaustive = false;
            continue;
        }
        r.samples.push_back(p);
        r.replayed++;
    }
    if (bad && !r.viol) rt::abort_check("an explorer worker failed");
    return r;
}
} // namespace ex
