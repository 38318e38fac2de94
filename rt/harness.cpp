#include "harness.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <unistd.h>

namespace hx
{
static Bad B;
Bad& bad() { return B; }
void fail(const char* f, ...)
{
    if (B.set) return;
    B.set = true;
    va_list ap;
    va_start(ap, f);
    vsnprintf(B.why, sizeof B.why, f, ap);
    va_end(ap);
}
const char* failed() { return B.set ? B.why : nullptr; }

// coverage counters: shared memory, one row per worker
const int NCOV = 64, NW = 33;
struct CovTab { char name[NCOV][32]; uint64_t n[NW][NCOV]; };
static CovTab** covp()
{
    static CovTab* t = (CovTab*)rt::host_map(sizeof(CovTab), true);
    return &t;
}
void cov(const char* what)
{
    CovTab* t = *covp();
    for (int i = 0; i < NCOV; i++)
    {
        if (!t->name[i][0]) strncpy(t->name[i], what, 31);
        if (!strncmp(t->name[i], what, 31))
        {
            t->n[*ex::worker % NW][i]++;
            return;
        }
    }
}
static std::function<void()>* cur_fn;
void in_world(const std::function<void()>& fn, const char* what)
{
    bool pts = *rt::points_on;
    *rt::points_on = false;
    std::function<void()> f = fn;
    cur_fn = &f;
    int id = rt::spawn_fn(cur_fn, 0);
    rt::fiber(id)->detached = 1;
    for (int i = 0; i < 100; i++)
    {
        rt::run(id);
        if (rt::fault()->kind != rt::FK_NONE)
        {
            fail("%s: %s", what, rt::fault()->what);
            rt::clear_fault();
        }
        auto st = rt::fiber(id)->st;
        if (st == rt::F_DONE || st == rt::F_DEAD) break;
        if (!rt::enabled(id)) { fail("%s never returns (waits forever)", what); break; }
    }
    if (rt::fiber(id)->st != rt::F_DONE) rt::fiber(id)->st = rt::F_FREE;
    *rt::points_on = pts;
}

// ---- threads
static struct { int cur; } TS = {-1};
void threads_reset() { TS.cur = -1; }
int running() { return TS.cur; }
static bool live(int i)
{
    auto st = rt::fiber(i)->st;
    return st != rt::F_FREE && st != rt::F_DONE && st != rt::F_DEAD;
}
bool all_done()
{
    for (int i = 0; i < rt::MAX_FIBERS; i++)
        if (live(i)) return false;
    return true;
}
std::string stuck()
{
    static const char* n[] = {"free", "runnable", "waits for a mutex", "waits on a condition", "waits for a shared lock", "waits for an exclusive lock", "waits for a thread", "sleeps", "waits", "done", "dead"};
    std::string r;
    for (int i = 0; i < rt::MAX_FIBERS; i++)
        if (live(i)) r += (r.empty() ? "thread " : ", thread ") + std::to_string(i) + " " + n[rt::fiber(i)->st];
    return r;
}
bool ThreadSys::live(int i) { return hx::live(i); }
bool ThreadSys::current_enabled() { return TS.cur >= 0 && hx::live(TS.cur) && rt::enabled(TS.cur); }
bool ThreadSys::any_enabled()
{
    for (int i = 0; i < rt::MAX_FIBERS; i++)
        if (hx::live(i) && rt::enabled(i)) return true;
    return false;
}
static int64_t next_deadline(int64_t horizon)
{
    int64_t d = -1;
    for (int i = 0; i < rt::MAX_FIBERS; i++)
        if (live(i))
        {
            rt::Fiber* f = rt::fiber(i);
            if ((f->st == rt::F_COND || f->st == rt::F_SLEEP || f->st == rt::F_USER) && f->deadline > rt::now_ns())
                if ((d < 0 || f->deadline < d) && (horizon < 0 || f->deadline <= horizon)) d = f->deadline;
        }
    return d;
}
bool ThreadSys::time_can_pass() { return next_deadline(horizon) >= 0; }
void ThreadSys::enabled(std::vector<ex::Choice>& out)
{
    if (failed()) return;
    bool curok = TS.cur >= 0 && live(TS.cur) && rt::enabled(TS.cur);
    auto add = [&](int t, int a, int cls) {
        ex::Choice c;
        c.t = t; c.a = a; c.cls = cls;
        out.push_back(c);
    };
    if (curok) add(T_RUN, TS.cur, 0);
    for (int i = 0; i < rt::MAX_FIBERS; i++)
        if (i != TS.cur && live(i) && rt::enabled(i)) add(T_RUN, i, curok ? 1 : 0);
    bool any = !out.empty();
    if (next_deadline(horizon) >= 0 && (!any || time)) add(T_TIME, 0, any ? 3 : 0);
    if (spurious)
        for (int i = 0; i < rt::MAX_FIBERS; i++)
            if (rt::fiber(i)->st == rt::F_COND) add(T_SPUR, i, 2);
}
void ThreadSys::apply(const ex::Choice& c)
{
    switch (c.t)
    {
        case T_RUN:
            TS.cur = c.a;
            rt::run(c.a);
            if (rt::fault()->kind != rt::FK_NONE)
            {
                fail("thread %d: %s", c.a, rt::fault()->what);
                rt::clear_fault();
            }
            break;
        case T_SPUR: rt::cond_has_waiter_kill(c.a); break;
        case T_TIME:
        {
            int64_t d = next_deadline(horizon);
            if (d >= 0) rt::set_now_ns(d);
            break;
        }
    }
}
uint64_t ThreadSys::hash()
{
    uint64_t h = rt::threads_hash();
    for (auto& r : regions) h = rt::hash_bytes(r.first, r.second, h);
    h ^= (uint64_t)(TS.cur + 2) * 0xff51afd7ed558ccdull;
    return extra_hash ? h ^ extra_hash() * 0x9e3779b97f4a7c15ull : h;
}
std::string ThreadSys::text(const ex::Choice& c)
{
    if (c.t == T_SPUR) return "spurious(" + std::to_string(c.a) + ")";
    if (c.t == T_TIME) return "time";
    return fname ? fname(c.a) : "t" + std::to_string(c.a);
}

// ---- driver
static std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32) { r += ' '; continue; }
        r += c;
    }
    return r;
}
// a run of the same step is shortened
static std::string steps(ex::System& s, const std::vector<ex::Choice>& p)
{
    std::string r, last;
    int n = 0;
    auto out = [&] { if (n) r += last + (n > 1 ? "*" + std::to_string(n) : "") + " "; };
    for (auto& c : p)
    {
        std::string t = c.t == 255 ? "probe" : s.text(c);
        if (t == last) { n++; continue; }
        out();
        last = t;
        n = 1;
    }
    out();
    return r;
}
int main(int argc, char** argv, const char* target, const std::vector<std::string>& names, const Make& make)
{
    rt::init();
    covp();
    // what the C++ runtime initialises with the first exception
    in_world([] { try { throw std::range_error("warm up"); } catch (const std::exception&) {} }, "warm up");
    if (argc > 1 && !strcmp(argv[1], "list"))
    {
        for (auto& n : names) printf("%s\n", n.c_str());
        return 0;
    }
    if (argc > 5 && !strcmp(argv[1], "run"))
    {
        int prop = atoi(argv[2]);
        bool thorough = !strcmp(argv[3], "thorough");
        std::string dir = argv[4], name = argv[5];
        Setup s;
        if (!make(name, prop, thorough, s)) { fprintf(stderr, "no scenario %s\n", name.c_str()); return 3; }
        if (getenv("VERIF_SECS")) s.opt.seconds = atof(getenv("VERIF_SECS"));
        if (getenv("VERIF_WORKERS")) s.opt.workers = atoi(getenv("VERIF_WORKERS"));
        ex::Result r;
        if (failed())
        {
            r.viol = true;
            r.text = failed();
            r.exhaustive = false;
        }
        else r = ex::explore(*s.sys, s.opt);
        std::string rp, again;
        if (r.viol)
        {
            rp = dir + "/C" + (prop < 10 ? "0" : "") + std::to_string(prop) + "-" + name + ".replay";
            FILE* f = fopen(rp.c_str(), "w");
            if (f)
            {
                fprintf(f, "# %s\n%s %s %d\n", r.text.c_str(), target, name.c_str(), prop);
                for (auto& c : r.path) fprintf(f, "%d %d %d %d\n", c.t, c.a, c.b, c.c);
                fclose(f);
            }
            again = r.path.empty() ? r.text : ex::replay(*s.sys, r.path, nullptr);
        }
        std::string smp, cv;
        for (size_t i = 0; i < r.samples.size(); i += 2)
            smp += std::string(smp.empty() ? "" : ",") + "\"" + jesc(steps(*s.sys, r.samples[i])) + "\"";
        CovTab* t = *covp();
        for (int i = 0; i < NCOV && t->name[i][0]; i++)
        {
            uint64_t n = 0;
            for (int w = 0; w < NW; w++) n += t->n[w][i];
            cv += std::string(cv.empty() ? "" : ",") + "\"" + t->name[i] + "\":" + std::to_string(n);
        }
        printf("RESULT {\"scenario\":\"%s\",\"script_ok\":true,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"probes\":%lu,\"deepest\":%d,\"exhaustive\":%s,\"bounds\":\"%s\",\"wall\":%.2f,\"viol\":\"%s\",\"confirmed\":%s,\"replay\":\"%s\",\"steps\":\"%s\",\"replayed\":%d,\"samples\":[%s],\"cov\":{%s}}\n",
            name.c_str(), r.states ? r.states : r.transitions, r.transitions, r.ends, r.probes, r.deepest, r.exhaustive ? "true" : "false", jesc(s.bounds).c_str(), r.wall, jesc(r.text).c_str(), r.viol && again == r.text ? "true" : "false", rp.c_str(), jesc(r.viol ? steps(*s.sys, r.path) : "").c_str(), r.replayed, smp.c_str(), cv.c_str());
        if (r.viol && again != r.text) fprintf(stderr, "replayed: '%s'\n", again.c_str());
        fflush(stdout);
        _exit(r.viol ? 1 : 0);
    }
    if (argc > 2 && !strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[2], "r");
        if (!f) return 3;
        char line[512], tg[64], nm[64];
        int prop = 0;
        std::vector<ex::Choice> path;
        bool head = false;
        while (fgets(line, sizeof line, f))
        {
            if (line[0] == '#') continue;
            if (!head && sscanf(line, "%63s %63s %d", tg, nm, &prop) == 3) { head = true; continue; }
            int a, b, c, d;
            if (sscanf(line, "%d %d %d %d", &a, &b, &c, &d) == 4)
            {
                ex::Choice x;
                x.t = a; x.a = b; x.b = c; x.c = d;
                path.push_back(x);
            }
        }
        fclose(f);
        Setup s;
        if (!make(nm, prop, false, s)) return 3;
        std::string t = failed() ? failed() : ex::replay(*s.sys, path, stdout);
        printf("%s\n", t.empty() ? "no violation" : t.c_str());
        fflush(stdout);
        _exit(t.empty() ? 0 : 1);
    }
    fprintf(stderr, "usage: %s list | run PROP TIER DIR SCENARIO | replay FILE\n", target);
    return 3;
}
} // namespace hx
// random numbers of the code under test: a fixed sequence
static uint32_t rnd_state = 1;
extern "C" uint32_t rt_engine_next() { return rnd_state = rnd_state * 1664525u + 1013904223u; }
