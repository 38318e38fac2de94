// The I/O service on sockets, files and a clock that the explorer controls.
//   timer-*   schedule, cancel and expiry (C21)
//   stop-*    stopping and logging (C22)
//   rpc-*     requests, responses, broken connections, malformed streams (C20)
#include "../rt/harness.hpp"
#include "../rt/vfs.hpp"
#include "../rt/vnet.hpp"
#include "cornerstone.hxx"
#include <cstring>
#include <new>
#include <stdexcept>

using namespace cornerstone;

static asio_service* svc;
static const int64_t MS = 1000000;
static void settle() // everybody runs until nobody can
{
    bool pts = *rt::points_on;
    *rt::points_on = false;
    for (int n = 0; n < 100000; n++)
    {
        bool any = false;
        for (int i = 0; i < rt::MAX_FIBERS; i++)
            if (hx::ThreadSys::live(i) && rt::enabled(i))
            {
                any = true;
                rt::run(i);
                if (rt::fault()->kind != rt::FK_NONE)
                {
                    hx::fail("thread %d: %s", i, rt::fault()->what);
                    rt::clear_fault();
                }
            }
        if (!any) break;
    }
    *rt::points_on = pts;
}
static void start_service(int procs)
{
    vfs::reset();
    vnet::reset();
    rt::nprocs = procs;
    rt::set_now_ns(1700000000ll * 1000 * MS);
    hx::in_world([] { svc = new asio_service; }, "creating the service");
    settle();
}
// watch the members of the service implementation
static void watch_impl()
{
    void** p = (void**)svc;
    for (size_t i = 0; i < sizeof(asio_service) / sizeof(void*); i++)
        if (rt::in_arena(p[i]))
            if (auto* b = rt::block_of(p[i])) { rt::watch(b + 1, b->req); }
    *rt::watch_on = true;
}

// ================================================================ timers
static struct
{
    int op, task, delay; // command for the main thread
    int n, max;          // commands so far
    bool self, thrower, quit;
    int resched[2];      // how often it schedules itself again
    bool user_stop[2];
    struct T
    {
        int changing; // 1 schedule() is being called, 2 cancel()
        bool live, oldlive, optional;
        int64_t due, olddue, late; // late: when it is due if the delay counts from the return of schedule()
        int runs;
    } t[2];
    std::mutex* u;
} TM;
static ptr<delayed_task>* tasks; // [2]
static void do_schedule(int k, int ms);
static void on_exec(int k)
{
    auto& t = TM.t[k];
    int64_t now = rt::now_ns();
    t.runs++;
    hx::cov("task runs");
    bool o = t.changing == 1 && t.oldlive && now >= t.olddue, c = t.live && now >= t.due;
    if (o && c) { t.oldlive = false; t.optional = true; }
    else if (o) t.oldlive = false;
    else if (c) t.live = false;
    else if (t.live) hx::fail("task %d runs %lld ms before it is due", k, (long long)(t.due - now) / MS);
    else hx::fail("task %d runs although it was cancelled or has already run", k);
    if (TM.self && k == 0)
    {
        std::lock_guard<std::mutex> g(*TM.u);
        if (!TM.user_stop[k] && TM.resched[k] > 0)
        {
            TM.resched[k]--;
            do_schedule(k, 10);
        }
    }
    if (TM.thrower && k == 0) throw std::runtime_error("thrown by the task");
}
class ttask : public delayed_task
{
    int k_;
public:
    explicit ttask(int k) : k_(k) {}
protected:
    void exec() override { on_exec(k_); }
};
static void do_schedule(int k, int ms)
{
    auto& t = TM.t[k];
    t.oldlive = t.live;
    t.olddue = t.due;
    t.live = true;
    t.optional = false;
    t.due = rt::now_ns() + ms * MS;
    t.changing = 1;
    svc->schedule(tasks[k], ms);
    t.late = rt::now_ns() + ms * MS;
    t.changing = 0;
    t.oldlive = false;
}
static void timer_main(void*)
{
    for (;;)
    {
        while (!TM.op) rt::block_user(&TM, -1);
        int op = TM.op, k = TM.task;
        if (TM.self) TM.u->lock();
        if (op == 1) { TM.user_stop[k] = false; do_schedule(k, TM.delay); }
        if (op == 2)
        {
            TM.t[k].changing = 2;
            TM.user_stop[k] = true;
            svc->cancel(tasks[k]);
            TM.t[k].changing = 0;
            TM.t[k].live = false;
        }
        if (TM.self) TM.u->unlock();
        TM.op = 0;
    }
}
static int main_fiber;
static const int T_CMD = 10, T_NET = 11;
struct Timer : hx::ThreadSys
{
    int ntasks = 1;
    std::vector<int> delays = {10, 20};
    void enabled(std::vector<ex::Choice>& out) override
    {
        ThreadSys::enabled(out);
        if (hx::failed() || TM.op || TM.n >= TM.max || rt::fiber(main_fiber)->st != rt::F_USER) return;
        int cls = current_enabled() ? 1 : 0;
        for (int k = 0; k < ntasks; k++)
        {
            ex::Choice c;
            c.t = T_CMD; c.cls = cls;
            c.b = k;
            for (size_t d = 0; d < delays.size(); d++) { c.a = 1; c.c = d; out.push_back(c); }
            c.a = 2; c.c = 0;
            out.push_back(c);
        }
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != T_CMD) return ThreadSys::apply(c);
        TM.op = c.a;
        TM.task = c.b;
        TM.delay = delays[c.c];
        TM.n++;
        hx::cov(c.a == 1 ? "scheduled" : "cancelled");
        rt::wake_user(&TM);
        ex::Choice r;
        r.t = hx::T_RUN;
        r.a = main_fiber;
        ThreadSys::apply(r);
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t != T_CMD) return ThreadSys::text(c);
        return (c.a == 1 ? "schedule(task" : "cancel(task") + std::to_string(c.b) + (c.a == 1 ? "," + std::to_string(delays[c.c]) + "ms)" : ")");
    }
};
static bool mk_timer(const std::string& r, bool thorough, hx::Setup& out)
{
    // N tasks, W workers, then s (schedules itself), x (throws), l (delays of all sizes)
    int nt = r[0] - '0', nw = r[1] - '0';
    bool self = r.find('s') != std::string::npos, thr = r.find('x') != std::string::npos;
    start_service(nw);
    memset((void*)&TM, 0, sizeof TM);
    TM.self = self;
    TM.thrower = thr;
    TM.resched[0] = 2;
    TM.max = (nt == 2 ? 3 : 4) + thorough - (self ? 1 : 0);
    hx::in_world([] {
        tasks = new ptr<delayed_task>[2];
        for (int k = 0; k < 2; k++) tasks[k] = ptr<delayed_task>(cs_new<ttask>(k));
        TM.u = new std::mutex;
    }, "setup");
    main_fiber = rt::spawn(timer_main, nullptr, 0);
    settle();
    auto* s = new Timer;
    s->ntasks = nt;
    bool all = r.find('l') != std::string::npos;
    if (self || (nt == 2)) s->delays = {10};
    if (all) s->delays = {0, 1, 1999, 301000};
    if (all) TM.max = 2 + thorough;
    s->time = true;
    s->horizon = rt::now_ns() + (all ? 1000000 : 400) * MS;
    s->regions = {{&TM, sizeof TM}, {&vnet::st(), sizeof(vnet::State)}};
    s->finish = [s] {
        for (int k = 0; k < 2; k++)
            if (TM.t[k].live && !TM.t[k].optional && TM.t[k].late <= s->horizon) return hx::fail("task %d was scheduled and never runs", k);
        if (rt::fiber(main_fiber)->st != rt::F_USER) return hx::fail("schedule() or cancel() never returns: %s", hx::stuck().c_str());
    };
    out.sys.reset(s);
    *rt::points_on = true;
    out.opt.table_bits = 26;
    out.opt.budget[1] = (nw == 2 ? 1 : nt == 2 ? 2 : 3) + thorough;
    out.opt.budget[3] = 2;
    out.opt.max_depth = 2000;
    out.opt.seconds = thorough ? 800 : 60;
    out.bounds = std::to_string(nt) + " tasks, " + std::to_string(nw) + " service threads" + (self ? ", a task that schedules itself again" : "") + (thr ? ", a task that throws" : "") + (all ? ", delays of 0 ms, 1 ms, 1.999 s and 301 s" : "") + ": all sequences of up to " + std::to_string(TM.max) + " schedule and cancel calls at any time, all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions, time passing early up to " + std::to_string(out.opt.budget[3]) + " times";
    return true;
}

// ================================================================ stopping and logging
struct Line { int thr, no, level; bool before_stop; };
static struct
{
    bool stop_called, stop_returned, destroyed;
    int stops;
    int n;
    Line l[16];
    int level;
    int nlog, nlines;
    int log_done;
    bool two;
} LG;
static ptr<logger>* loggers; // [2]
static const char* LV[] = {"dbug", "info", "warn", "errr"};
static std::string text_of(const Line& l) { return "line " + std::to_string(l.no) + " of thread " + std::to_string(l.thr); }
static void check_log(bool all, const char* when)
{
    int n;
    const char* d = vfs::content("log.txt", &n);
    std::string s(d ? d : "", n > 0 ? n : 0);
    std::vector<std::string> got;
    size_t p = 0;
    while (p < s.size())
    {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) { if (all) return hx::fail("%s the log file ends within a line", when); break; }
        got.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    std::vector<int> pos(LG.n, -1);
    for (size_t g = 0; g < got.size(); g++)
    {
        int hit = -1;
        for (int i = 0; i < LG.n; i++)
        {
            std::string suf = "\t" + std::string(LV[LG.l[i].level]) + "\t" + text_of(LG.l[i]);
            if (got[g].size() >= suf.size() && got[g].compare(got[g].size() - suf.size(), suf.size(), suf) == 0) hit = i;
        }
        if (hit < 0) return hx::fail("%s the log file has a line that nobody logged: %s", when, got[g].c_str());
        if (pos[hit] >= 0) return hx::fail("%s the log file has a line twice: %s", when, got[g].c_str());
        pos[hit] = g;
    }
    int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < LG.n; i++)
    {
        auto& l = LG.l[i];
        if (l.level < LG.level)
        {
            if (pos[i] >= 0) return hx::fail("%s the log file has a line below the level: %s", when, text_of(l).c_str());
            continue;
        }
        if (pos[i] < 0)
        {
            if (all || l.before_stop) return hx::fail("%s a line is missing in the log file: %s", when, text_of(l).c_str());
            continue;
        }
        if (pos[i] < last[l.thr]) return hx::fail("%s the lines of a thread are out of order: %s", when, text_of(l).c_str());
        last[l.thr] = pos[i];
    }
}
static void log_thread(void* a)
{
    int k = (int)(intptr_t)a;
    static const int lv[] = {3, 0, 1, 2};
    for (int i = 0; i < LG.nlines; i++)
    {
        Line l{k, i, lv[(i + k) % 4], false};
        std::string s = text_of(l);
        int at = LG.n++;
        LG.l[at] = l;
        switch (l.level)
        {
        case 0: loggers[0]->debug(s); break;
        case 1: loggers[0]->info(s); break;
        case 2: loggers[0]->warn(s); break;
        default: loggers[0]->err(s); break;
        }
        LG.l[at].before_stop = !LG.stop_called;
    }
    LG.log_done++;
    rt::wake_user(&LG);
}
static void stop_thread(void* a)
{
    // a line logged by the thread that stops
    if (a == nullptr)
    {
        Line l{3, 0, 3, true};
        LG.l[LG.n++] = l;
        std::string s = text_of(l);
        loggers[0]->err(s);
    }
    LG.stop_called = true;
    svc->stop();
    LG.stops--;
    if (a) return;
    LG.stop_returned = true;
    hx::cov("stop() has returned");
    // (another stop() may have been first and is still waiting)
    if (!LG.two) check_log(false, "after stop()");
    while (LG.log_done < LG.nlog || LG.stops > 0) rt::block_user(&LG, -1);
    // nobody needs the service any more
    for (int k = 0; k < 2; k++) loggers[k].reset();
    delete svc;
    LG.destroyed = true;
}
static void second_stop(void*)
{
    stop_thread((void*)1);
    rt::wake_user(&LG);
}
static bool mk_stop(const std::string& r, bool thorough, hx::Setup& out)
{
    // W workers, L logging threads, K lines each; then 2 (two threads stop), + (every access to the service)
    int nw = r[0] - '0', nl = r[1] - '0', k = r[2] - '0';
    bool two = r.find('t') != std::string::npos, fine = r.find('+') != std::string::npos, task = r.find('k') != std::string::npos;
    start_service(nw);
    memset((void*)&LG, 0, sizeof LG);
    LG.level = 1;
    LG.nlog = nl;
    LG.nlines = k;
    LG.two = two;
    LG.stops = 1 + two;
    memset((void*)&TM, 0, sizeof TM);
    hx::in_world([task] {
        loggers = new ptr<logger>[2];
        loggers[0] = svc->create_logger(asio_service::log_level::info, "log.txt");
        loggers[1] = svc->create_logger(asio_service::log_level::debug, "log2.txt");
        if (task)
        {
            tasks = new ptr<delayed_task>[2];
            tasks[0] = ptr<delayed_task>(cs_new<ttask>(0));
            TM.t[0].live = true;
            TM.t[0].due = rt::now_ns() + 900 * MS;
            svc->schedule(tasks[0], 900);
        }
    }, "setup");
    settle();
    rt::spawn(stop_thread, nullptr, 0);
    if (two) rt::spawn(second_stop, nullptr, 0);
    for (int i = 0; i < nl; i++) rt::spawn(log_thread, (void*)(intptr_t)i, 0);
    auto* s = new hx::ThreadSys;
    s->time = true;
    s->spurious = true;
    s->horizon = rt::now_ns() + 3000 * MS;
    s->regions = {{&LG, sizeof LG}, {&TM, sizeof TM}, {&vnet::st(), sizeof(vnet::State)}, {&vfs::st(), sizeof(vfs::State)}};
    s->finish = [] {
        if (!LG.stop_returned) return hx::fail("stop() never returns: %s", hx::stuck().c_str());
        if (!LG.destroyed) return hx::fail("the threads wait forever after stop(): %s", hx::stuck().c_str());
        if (!hx::all_done()) return hx::fail("the threads of the service never end after stop(): %s", hx::stuck().c_str());
        check_log(true, "after the service is gone");
    };
    out.sys.reset(s);
    *rt::points_on = true;
    if (fine) watch_impl();
    out.opt.table_bits = 26;
    out.opt.budget[1] = (nw + nl > 2 || fine ? 2 : 3) + thorough;
    out.opt.budget[2] = 1;
    out.opt.budget[3] = 1;
    out.opt.max_depth = 3000;
    out.opt.seconds = thorough ? 800 : 60;
    out.bounds = std::to_string(nw) + " service threads, " + std::to_string(nl) + " threads that log " + std::to_string(k) + " lines each" + (task ? ", a scheduled task" : "") + ", stop()" + (two ? " by two threads" : "") + " at any time, also around the periodic flush: all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions at locks, conditions, system calls" + (fine ? " and accesses to the service's members" : "") + ", one spurious wake-up, time passing early once";
    return true;
}

// one thread, every configured level, lines of every level and several kinds, to two loggers
static const int NTEXT = 4;
static std::string line_text(int i)
{
    switch (i)
    {
    case 0: return "";
    case 1: return "100%s %n\t%d";
    case 2: return std::string(270, 'y') + "%";
    default: return "end " + std::string(480, 'z') + ".";
    }
}
static struct
{
    int op, a, b, c; // command
    int n, max;
    int level[2];
    int cnt[2];
    short line[2][8]; // level * NTEXT + text
    bool stopped, gone;
} LN;
static void check_lines(const char* when)
{
    for (int k = 0; k < 2; k++)
    {
        int n;
        const char* d = vfs::content(k ? "log2.txt" : "log.txt", &n);
        std::string s(d ? d : "", n > 0 ? n : 0);
        size_t p = 0;
        for (int i = 0; i < LN.cnt[k]; i++)
        {
            int lv = LN.line[k][i] / NTEXT;
            std::string suf = "\t" + std::string(LV[lv]) + "\t" + line_text(LN.line[k][i] % NTEXT) + "\n";
            size_t e = s.find('\n', p);
            if (e == std::string::npos) return hx::fail("%s line %d (%s) is missing in the file of logger %d", when, i, LV[lv], k);
            std::string got = s.substr(p, e + 1 - p);
            if (got.size() < suf.size() || got.compare(got.size() - suf.size(), suf.size(), suf) != 0) return hx::fail("%s line %d in the file of logger %d is not the one that was logged (%s): %s", when, i, k, LV[lv], got.c_str());
            if (got.find('[') == std::string::npos || got.size() > suf.size() + 80) return hx::fail("%s line %d in the file of logger %d has a wrong head: %s", when, i, k, got.c_str());
            p = e + 1;
        }
        if (p != s.size()) return hx::fail("%s the file of logger %d has more than what was logged: %s", when, k, s.substr(p).c_str());
    }
}
static void lines_main(void*)
{
    while (!LN.gone)
    {
        while (!LN.op) rt::block_user(&LN, -1);
        if (LN.op == 1)
        {
            for (int k = 0; k < 2; k++)
            {
                LN.level[k] = k ? (LN.a + LN.b) % 4 : LN.a;
                loggers[k] = svc->create_logger((asio_service::log_level)LN.level[k], k ? "log2.txt" : "log.txt");
            }
        }
        else if (LN.op == 2)
        {
            int k = LN.a;
            std::string s = line_text(LN.c);
            switch (LN.b)
            {
            case 0: loggers[k]->debug(s); break;
            case 1: loggers[k]->info(s); break;
            case 2: loggers[k]->warn(s); break;
            default: loggers[k]->err(s); break;
            }
            if (LN.b >= LN.level[k]) LN.line[k][LN.cnt[k]++] = LN.b * NTEXT + LN.c;
        }
        else if (LN.op == 3)
        {
            svc->stop();
            check_lines("after stop()");
            LN.stopped = true;
        }
        else
        {
            for (int k = 0; k < 2; k++) loggers[k].reset();
            delete svc;
            LN.gone = true;
        }
        LN.op = 0;
    }
}
struct Lines : hx::ThreadSys
{
    void enabled(std::vector<ex::Choice>& out) override
    {
        ThreadSys::enabled(out);
        if (hx::failed() || LN.op || LN.gone || rt::fiber(main_fiber)->st != rt::F_USER) return;
        ex::Choice c;
        c.t = T_CMD;
        c.cls = current_enabled() ? 1 : 0;
        if (!LN.n)
        {
            c.a = 1;
            for (int l = 0; l < 16; l++) { c.b = l % 4; c.c = l / 4; out.push_back(c); }
            return;
        }
        if (LN.n <= LN.max && !LN.stopped)
        {
            for (int l = 0; l < 8 * NTEXT; l++) { c.a = 2; c.b = l / (4 * NTEXT); c.c = l % (4 * NTEXT); out.push_back(c); }
        }
        c.b = c.c = 0;
        c.a = LN.stopped ? 4 : 3; // (a service is stopped before it is destroyed)
        out.push_back(c);
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != T_CMD) return ThreadSys::apply(c);
        LN.op = c.a;
        LN.a = c.b;
        LN.b = c.a == 2 ? c.c / NTEXT : c.c;
        LN.c = c.c % NTEXT;
        LN.n++;
        hx::cov(c.a == 1 ? "loggers created" : c.a == 2 ? "line logged" : c.a == 3 ? "stopped" : "destroyed");
        rt::wake_user(&LN);
        ex::Choice r;
        r.t = hx::T_RUN;
        r.a = main_fiber;
        ThreadSys::apply(r);
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t != T_CMD) return ThreadSys::text(c);
        char b[80];
        snprintf(b, sizeof b, c.a == 1 ? "create_logger(%d), create_logger(+%d)" : c.a == 2 ? "logger %d: line %d" : c.a == 3 ? "stop()" : "destroy", c.b, c.c);
        return b;
    }
};
static bool mk_lines(const std::string& r, bool thorough, hx::Setup& out)
{
    start_service(r[0] - '0');
    memset((void*)&LN, 0, sizeof LN);
    LN.max = 2 + thorough;
    hx::in_world([] { loggers = new ptr<logger>[2]; }, "setup");
    main_fiber = rt::spawn(lines_main, nullptr, 0);
    settle();
    auto* s = new Lines;
    s->time = true;
    s->horizon = rt::now_ns() + 3000 * MS;
    s->regions = {{&LN, sizeof LN}, {&vnet::st(), sizeof(vnet::State)}, {&vfs::st(), sizeof(vfs::State)}};
    s->finish = [] {
        if (!LN.gone)
        {
            if (LN.op) return hx::fail("a call never returns: %s", hx::stuck().c_str());
            return; // nothing else was asked for
        }
        if (!hx::all_done()) return hx::fail("the threads of the service never end: %s", hx::stuck().c_str());
        check_lines("after the service is gone");
    };
    out.sys.reset(s);
    *rt::points_on = true;
    out.opt.table_bits = 26;
    out.opt.budget[1] = 0;
    out.opt.budget[2] = 0;
    out.opt.budget[3] = 1;
    out.opt.max_depth = 3000;
    out.opt.seconds = thorough ? 800 : 90;
    out.bounds = std::string("two loggers of every pair of levels, all sequences of up to ") + std::to_string(LN.max) + " lines of every level and 4 kinds (empty, with format characters, 271 and 485 characters) to either, before and after the periodic flush, then stop() and destruction";
    return true;
}

// ================================================================ RPC
struct Ent { ulong term; int type; int size; };
struct Rq { msg_type type; int src, dst; ulong term, lt, li, ci; int ne; Ent e[3]; };
static const Rq RQ[] = {
    {msg_type::append_entries_request, -1, 0x7fffffff, ~0ull, 1ull << 63, 1000, 0x0102030405060708ull, 3, {{~0ull, log_val_type::conf, 1}, {0, log_val_type::app_log, 0}, {5, log_val_type::snp_sync_req, 7}}},
    {msg_type::vote_request, 3, 4, 7, 8, 1001, 0, 0, {}},
    {msg_type::append_entries_request, (int)0x80000000, 1, 1, 2, 1002, 3, 1, {{9, log_val_type::log_pack, 0}}},
    {msg_type::client_request, 1, 2, 2, 3, 1003, 4, 1, {{1, log_val_type::app_log, 2}}},
    {msg_type::vote_request, 5, 6, 0, 0, 1004, 0, 0, {}},
    {msg_type::vote_request, 6, 5, 0, 0, 1005, 1, 0, {}},
};
const int NRQ = sizeof RQ / sizeof *RQ;
static byte eb(int i, int j, int k) { return (byte)(i * 50 + j * 17 + k * 3 + 200); }
static ptr<req_msg> mk_req(int i)
{
    const Rq& q = RQ[i];
    ptr<req_msg> r(cs_new<req_msg>(q.term, q.type, q.src, q.dst, q.lt, q.li, q.ci));
    for (int j = 0; j < q.ne; j++)
    {
        bufptr b = buffer::alloc(q.e[j].size);
        for (int k = 0; k < q.e[j].size; k++) b->put(eb(i, j, k));
        if (q.e[j].size > 3) b->pos(2); else b->pos(0);
        r->log_entries().push_back(cs_new<log_entry>(q.e[j].term, std::move(b), (log_val_type)q.e[j].type));
    }
    return r;
}
static int which(req_msg& r) { return r.get_last_log_idx() >= 1000 && r.get_last_log_idx() < 1000 + NRQ ? (int)r.get_last_log_idx() - 1000 : -1; }
static bool same_req(req_msg& r, int i)
{
    const Rq& q = RQ[i];
    if (r.get_type() != q.type || r.get_src() != q.src || r.get_dst() != q.dst || r.get_term() != q.term || r.get_last_log_term() != q.lt || r.get_last_log_idx() != q.li || r.get_commit_idx() != q.ci || (int)r.log_entries().size() != q.ne) return false;
    for (int j = 0; j < q.ne; j++)
    {
        log_entry& e = *r.log_entries()[j];
        if (e.get_term() != q.e[j].term || (int)e.get_val_type() != q.e[j].type || (int)e.get_buf().size() != q.e[j].size) return false;
        e.get_buf().pos(0);
        for (int k = 0; k < q.e[j].size; k++)
            if (e.get_buf().data()[k] != eb(i, j, k)) return false;
    }
    return true;
}
struct Rs { msg_type type; int src, dst; ulong term, next; bool acc; };
static Rs resp_of(int i)
{
    return {i % 2 ? msg_type::vote_response : msg_type::append_entries_response, i == 0 ? -7 : i, i == 1 ? (int)0x80000000 : 100 + i, i == 0 ? ~0ull : (ulong)i << 40, i == 1 ? ~0ull - 1 : 5ull + i, i % 2 == 0};
}
static struct
{
    int reached[NRQ], done[NRQ], ok[NRQ], sent[NRQ];
    int order[NRQ], norder;
    int faults, faults_at_f1, refusing;
    int phase, mode; // mode of the server: 1 no response to request 1, 2 throws at request 1; 3 the handler of the response throws
    int stream, rc, cut;
    bool closed_by_us;
    int rl, rdone; // remote server: socket, answered
} R;
static ptr<rpc_client>* client;
static ptr<rpc_listener>* listener;
static ptr<raft_server>* fake;
static ptr<logger>* nolog;
alignas(64) static char fake_mem[64];
ptr<resp_msg> raft_server::process_req(req_msg& r)
{
    int i = which(r);
    if (i < 0 || !same_req(r, i)) { hx::fail("the server receives a request that differs from what was sent (%d)", i); return ptr<resp_msg>(); }
    if (!R.sent[i]) hx::fail("the server receives request %d which was not sent", i);
    if (R.reached[i]++) hx::fail("the server receives request %d twice", i);
    if (R.norder < NRQ) R.order[R.norder++] = i;
    if (i == 1 && R.mode == 1) return ptr<resp_msg>();
    if (i == 1 && R.mode == 2) throw std::runtime_error("thrown by the server");
    Rs s = resp_of(i);
    return cs_new<resp_msg>(s.term, s.type, s.src, s.dst, s.next, s.acc);
}
static void on_done(int i, ptr<resp_msg>& rsp, const ptr<rpc_exception>& ex)
{
    if (R.done[i]++) return hx::fail("the completion of request %d runs twice", i);
    if (!rsp == !ex) return hx::fail("request %d completes with %s response and error", i, rsp ? "both" : "neither");
    if (ex)
    {
        hx::cov("requests that fail");
        if (!ex->req() || which(*ex->req()) != i) return hx::fail("the error of request %d names another request", i);
        if (!R.faults && !(i == 1 && (R.mode == 1 || R.mode == 2)) && R.stream < 0) return hx::fail("request %d fails although nothing is wrong: %s", i, ex->what());
    }
    else
    {
        hx::cov("requests that succeed");
        Rs s = resp_of(i);
        R.ok[i] = 1;
        if (rsp->get_type() != s.type || rsp->get_src() != s.src || rsp->get_dst() != s.dst || rsp->get_term() != s.term || rsp->get_next_idx() != s.next || rsp->get_accepted() != s.acc)
            return hx::fail("request %d completes with a response that differs from what the server returned", i);
        if (R.stream < 0 && !R.reached[i]) return hx::fail("request %d completes with a response before the server has seen it", i);
    }
    if (R.mode == 3 && i == 1) throw std::runtime_error("thrown by the caller");
}
static void do_send(int i)
{
    R.sent[i] = 1;
    ptr<req_msg> r = mk_req(i);
    rpc_handler h = [i](ptr<resp_msg>& rsp, const ptr<rpc_exception>& ex) { on_done(i, rsp, ex); };
    (*client)->send(r, h);
}
class quiet : public logger
{
public:
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string&) override {}
};
static void rpc_setup(int procs, bool lst)
{
    start_service(procs);
    memset((void*)&R, 0, sizeof R);
    R.stream = -1;
    R.rc = R.rl = -1;
    hx::in_world([lst] {
        fake = new ptr<raft_server>((raft_server*)fake_mem, [](raft_server*) {});
        nolog = new ptr<logger>(cs_new<quiet>());
        client = new ptr<rpc_client>(svc->create_client("tcp://some-host.example:9001"));
        if (!*client) { hx::fail("no client for a valid endpoint"); return; }
        listener = new ptr<rpc_listener>(svc->create_rpc_listener(9001, *nolog));
        if (lst) (*listener)->listen(*fake);
    }, "setup");
    settle();
}
// what can happen in the network
enum { N_DELIVER, N_PART, N_FIN, N_RST, N_CONN, N_REFUSE, N_GAI, N_NOGAI, N_NEXT, N_STREAM, N_CLOSE, N_NOACC };
static bool is_conn(int i) { auto& s = vnet::st().s[i]; return s.kind == vnet::SOCK && s.open && s.conn == vnet::C_UP; }
struct Rpc : hx::ThreadSys
{
    bool threads = false; // explore schedules too
    bool faults = true, parts = true;
    std::function<bool(std::vector<ex::Choice>&)> next; // what to do when everything is quiet
    std::function<void(const ex::Choice&)> do_next;
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (hx::failed()) return;
        ThreadSys::enabled(out);
        if (!threads && !out.empty() && any_enabled()) rt::abort_check("not settled");
        int cls0 = current_enabled() || any_enabled() ? 1 : 0;
        auto add = [&](int k, int s, int n, int cls) { ex::Choice c; c.t = T_NET; c.a = k; c.b = s; c.c = n; c.cls = cls; out.push_back(c); };
        auto& N = vnet::st();
        bool quiet = cls0 == 0;
        if (N.gai == 1) { add(N_GAI, 0, 0, cls0); if (faults) add(N_NOGAI, 0, 0, 5); quiet = false; }
        for (int i = 0; i < vnet::NS; i++)
        {
            auto& s = N.s[i];
            if (s.kind == vnet::SOCK && s.open && s.conn == vnet::C_CONNECTING)
            {
                quiet = false;
                add(N_CONN, i, 0, cls0);
                if (faults) { add(N_REFUSE, i, 0, 5); add(N_NOACC, i, 0, 5); }
            }
            if (!is_conn(i)) continue;
            if (vnet::in_flight(i) && !s.remote)
            {
                quiet = false;
                add(N_DELIVER, i, 0, cls0);
                if (parts)
                    for (int k = 1; k < s.n - s.in_n && k < 250; k++) add(N_PART, i, k, 4);
            }
            if (faults && !s.rst && !s.fin && s.peer >= 0 && N.s[s.peer].open && (i < s.peer)) { add(N_FIN, i, 0, 5); add(N_RST, i, 0, 5); }
        }
        if (quiet && next) next(out);
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != T_NET) { ThreadSys::apply(c); return; }
        switch (c.a)
        {
        case N_DELIVER: vnet::deliver(c.b, -1); break;
        case N_PART: vnet::deliver(c.b, c.c); hx::cov("partial deliveries"); break;
        case N_FIN: R.faults++; hx::cov("connections closed"); vnet::kill(c.b, false); break;
        case N_RST: R.faults++; hx::cov("connections reset"); vnet::kill(c.b, true); break;
        case N_CONN: vnet::connected(c.b, true); break;
        case N_REFUSE: R.faults++; hx::cov("connections refused"); vnet::connected(c.b, false); break;
        case N_NOACC: R.faults++; hx::cov("accepting fails"); vnet::st().acc_err = 1; vnet::connected(c.b, true); break;
        case N_GAI: vnet::resolved(true); break;
        case N_NOGAI: R.faults++; hx::cov("names unknown"); vnet::resolved(false); break;
        default: do_next(c); break;
        }
        if (!threads) settle();
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t != T_NET) return ThreadSys::text(c);
        static const char* n[] = {"deliver", "deliver-part", "close", "reset", "connected", "refused", "resolved", "unknown-name", "next", "stream", "close-ours", "connected-accept-fails"};
        return std::string(n[c.a]) + "(" + std::to_string(c.b) + (c.a == N_PART || c.a >= N_NEXT ? "," + std::to_string(c.c) : "") + ")";
    }
};
static void rpc_finish()
{
    for (int i = 0; i < NRQ; i++)
        if (R.sent[i] && !R.done[i]) return hx::fail("request %d never completes", i);
    if (R.norder > 1)
        for (int i = 1; i < R.norder; i++)
            if (R.order[i] < R.order[i - 1] && R.phase >= 100) return hx::fail("requests reach the server out of order");
}
static bool mk_echo(const std::string& r, bool thorough, hx::Setup& out)
{
    // echo-MSW: server mode, send limit, addresses
    int mode = r[0] - '0', snd = r[1] - '0', na = r[2] - '0';
    rpc_setup(1, true);
    R.mode = mode;
    vnet::st().snd_max = snd == 0 ? 0 : snd == 1 ? 1 : 30;
    vnet::st().naddr = na;
    auto* s = new Rpc;
    s->regions = {{&R, sizeof R}, {&vnet::st(), sizeof(vnet::State)}};
    s->horizon = 0;
    // requests 0, 1 and 2 at once, then 3, then 4 and 5
    s->next = [](std::vector<ex::Choice>& o) {
        for (int i = 0; i < NRQ; i++)
            if (R.sent[i] && !R.done[i]) { hx::fail("request %d never completes", i); return false; }
        if (R.phase == 3 && !R.ok[4] && !R.faults) { hx::fail("request 4 fails"); return false; }
        if (R.phase >= 4) return false;
        ex::Choice c;
        c.t = T_NET; c.a = N_NEXT; c.b = 0; c.c = R.phase;
        o.push_back(c);
        return true;
    };
    s->do_next = [](const ex::Choice&) {
        int p = R.phase++;
        hx::in_world([p] {
            if (p == 0)
            {
                do_send(0); do_send(1); do_send(2);
                if (R.mode == 4) *client = svc->create_client("tcp://some-host.example:9001"); // nobody else holds the old one
            }
            if (p == 1)
            {
                if (R.mode == 5) { R.refusing = 1; (*listener)->stop(); }
                do_send(3);
            }
            if (p == 2) do_send(4);
            if (p == 3) { R.faults_at_f1 = R.faults; do_send(5); }
        }, "send");
    };
    s->finish = [] {
        rpc_finish();
        if (R.phase < 4) return hx::fail("the exchange stops");
        // a connection that broke before can be noticed once only
        if (!R.refusing && R.faults == R.faults_at_f1 && !R.ok[4] && !R.ok[5]) return hx::fail("requests keep failing although the network works again");
        if (!R.faults && (!R.mode || R.mode >= 4) && R.norder != NRQ) return hx::fail("not all requests reached the server");
    };
    out.sys.reset(s);
    *rt::points_on = false;
    out.opt.table_bits = 25;
    out.opt.budget[4] = thorough ? 3 : 2;
    out.opt.budget[5] = 2;
    out.opt.total = thorough ? 4 : 3;
    out.opt.max_depth = 4000;
    out.opt.seconds = thorough ? 800 : 60;
    static const char* md[] = {"", ", the server returns nothing once", ", the server throws once", ", a completion throws", ", the client is released with requests outstanding", ", the listener stops"};
    out.bounds = std::string("six requests, three at once") + md[mode] + (snd ? ", short writes" : "") + (na > 1 ? ", several addresses" : "") + ": up to " + std::to_string(out.opt.budget[4]) + " partial deliveries of any length and up to " + std::to_string(out.opt.budget[5]) + " failures (name, connect, accept, close or reset) anywhere, " + std::to_string(out.opt.total) + " of both together";
    return true;
}
// ---- raw streams to the server
static void enc_int(std::string& s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static void enc_long(std::string& s, ulong v) { for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); }
static std::string enc_entries(int i, int badj, uint32_t badsize)
{
    std::string s;
    const Rq& q = RQ[i];
    for (int j = 0; j < q.ne; j++)
    {
        enc_long(s, q.e[j].term);
        s += (char)q.e[j].type;
        enc_int(s, j == badj ? badsize : q.e[j].size);
        for (int k = 0; k < q.e[j].size; k++) s += (char)eb(i, j, k);
    }
    return s;
}
static std::string enc_head(int i, uint32_t size)
{
    const Rq& q = RQ[i];
    std::string s;
    s += (char)q.type;
    enc_int(s, q.src);
    enc_int(s, q.dst);
    enc_long(s, q.term);
    enc_long(s, q.lt);
    enc_long(s, q.li);
    enc_long(s, q.ci);
    enc_int(s, size);
    return s;
}
static std::string enc(int i)
{
    std::string e = enc_entries(i, -1, 0);
    return enc_head(i, e.size()) + e;
}
static std::string enc_resp(int i)
{
    Rs r = resp_of(i);
    std::string s;
    s += (char)r.type;
    enc_int(s, r.src);
    enc_int(s, r.dst);
    enc_long(s, r.term);
    enc_long(s, r.next);
    s += (char)(r.acc ? 1 : 0);
    return s;
}
static bool decodes(const std::string& e) // some sequence of entries, perhaps not the intended one
{
    size_t p = 0;
    while (p < e.size())
    {
        if (e.size() - p < 13) return false;
        uint32_t n = (byte)e[p + 9] | (byte)e[p + 10] << 8 | (byte)e[p + 11] << 16 | (uint32_t)(byte)e[p + 12] << 24;
        p += 13;
        if (n > e.size() - p) return false;
        p += n;
    }
    return true;
}
struct Stream { std::string bytes; std::vector<int> valid; bool malformed; };
static std::vector<Stream>* streams;
static void mk_streams()
{
    static std::vector<Stream> v;
    v.clear();
    auto bad = [&](std::string s, std::vector<int> ok = {}) { v.push_back({s, ok, true}); };
    v.push_back({enc(0), {0}, false});
    v.push_back({enc(1) + enc(0), {1, 0}, false});
    for (uint32_t sz : {0xffffffffu, 0x80000000u, 0x01000001u, 0x7fffffffu})
    {
        bad(enc_head(0, sz) + std::string(20, 'x'));
        bad(enc(1) + enc_head(0, sz) + enc_entries(0, -1, 0), {1});
    }
    for (int j = 0; j < 3; j++)
        for (uint32_t sz : {0xffffffffu, 0x80000000u, 0x7fffffffu, 100u, (uint32_t)RQ[0].e[j].size + 1, (uint32_t)RQ[0].e[j].size - 1})
        {
            std::string e = enc_entries(0, j, sz);
            if (!decodes(e)) bad(enc_head(0, e.size()) + e);
        }
    for (int n : {1, 8, 9, 12}) bad(enc_head(0, n) + enc_entries(0, -1, 0).substr(0, n));                                 // less than the head of an entry
    for (int n : {13, 15, 26}) bad(enc_head(0, n) + enc_entries(0, -1, 0).substr(0, n) + "", {});                          // ends within an entry
    v.push_back({enc(0).substr(0, 44), {}, false});
    streams = &v;
}
static bool same_wire; // the real client writes what enc() writes
static void calibrate()
{
    rpc_setup(1, true);
    hx::in_world([] { do_send(0); }, "send");
    settle();
    vnet::resolved(true);
    settle();
    for (int i = 0; i < vnet::NS; i++) vnet::connected(i, true);
    settle();
    std::string w;
    for (auto& s : vnet::st().s)
        if (s.kind == vnet::SOCK && s.n) w.assign(s.d, s.n);
    same_wire = w == enc(0);
    // and the real server writes what enc_resp() writes
    for (int i = 0; i < vnet::NS; i++)
        if (is_conn(i) && vnet::in_flight(i)) vnet::deliver(i, -1);
    settle();
    w.clear();
    for (auto& s : vnet::st().s)
        if (s.kind == vnet::SOCK && s.n > s.in_n) w.assign(s.d, s.n);
    same_wire = same_wire && w == enc_resp(0);
}
static void calibrated()
{
    rt::Ckpt* k = rt::save();
    calibrate();
    bool same = same_wire;
    rt::restore(k);
    rt::release(k);
    same_wire = same;
    hx::cov(same ? "wire format as expected" : "wire format differs: nothing is explored");
}
static bool mk_raw(const std::string& r, bool thorough, hx::Setup& out)
{
    bool cuts = r == "cut";
    calibrated();
    rpc_setup(1, true);
    mk_streams();
    R.stream = 0;
    auto* s = new Rpc;
    s->faults = false;
    s->regions = {{&R, sizeof R}, {&vnet::st(), sizeof(vnet::State)}};
    s->horizon = 0;
    s->next = [cuts](std::vector<ex::Choice>& o) {
        ex::Choice c;
        c.t = T_NET;
        if (!same_wire) return false;
        if (R.phase == 0 && !cuts)
            for (size_t i = 0; i < streams->size(); i++) { c.a = N_STREAM; c.b = i; c.c = 0; o.push_back(c); }
        if (R.phase == 0 && cuts)
            for (size_t i = 0; i < 2; i++)
                for (size_t n = 0; n < (*streams)[i].bytes.size(); n++) { c.a = N_STREAM; c.b = i; c.c = n + 1; o.push_back(c); }
        if (R.phase == 1) { c.a = N_CLOSE; c.b = 0; c.c = 0; o.push_back(c); }
        if (R.phase == 2) { c.a = N_NEXT; c.b = 0; c.c = 0; o.push_back(c); }
        return !o.empty();
    };
    s->do_next = [](const ex::Choice& c) {
        auto& N = vnet::st();
        if (c.a == N_STREAM)
        {
            R.phase = 1;
            R.stream = c.b;
            R.cut = c.c;
            const Stream& st = (*streams)[c.b];
            R.rc = vnet::remote_connect(9001);
            if (R.rc < 0) return hx::fail("the listener does not listen");
            for (int i : st.valid) R.sent[i] = 1;
            vnet::remote_send(R.rc, st.bytes.data(), c.c ? c.c - 1 : (int)st.bytes.size());
            return;
        }
        auto check = [&](const std::vector<int>& valid, const char* when) {
            if (R.norder != (int)valid.size()) return hx::fail("%d requests reach the server instead of %d %s", R.norder, (int)valid.size(), when);
            for (size_t i = 0; i < valid.size(); i++)
                if (R.order[i] != valid[i]) return hx::fail("another request reaches the server %s", when);
            std::string want;
            for (int i : valid) want += enc_resp(i);
            auto& s = N.s[R.rc];
            if (std::string(s.d, s.n) != want) return hx::fail("the responses on the wire are not those of the server %s", when);
        };
        if (c.a == N_CLOSE)
        {
            R.phase = 2;
            const Stream& st = (*streams)[R.stream];
            auto& s = N.s[R.rc];
            if (!R.cut)
            {
                check(st.valid, st.malformed ? "from a malformed stream" : "from a stream");
                bool closed = s.fin_flight || s.rst;
                if (st.malformed && !closed) return hx::fail("a malformed stream does not close the connection");
                if (!st.malformed && closed) return hx::fail("a connection without a malformed stream is closed");
            }
            else
            {
                std::vector<int> v;
                size_t n = 0;
                for (int i : st.valid) { n += enc(i).size(); if (n <= (size_t)R.cut - 1) v.push_back(i); }
                check(v, "from a truncated stream");
                if (s.fin_flight || s.rst) return hx::fail("a connection is closed within a request");
            }
            // our end closes
            s.open = true;
            if (s.peer >= 0) { N.s[s.peer].fin_flight = true; }
            hx::cov("streams");
            return;
        }
        // the other connections are not affected
        R.phase = 3;
        auto& o = N.s[R.rc];
        if (o.peer >= 0 && N.s[o.peer].open) return hx::fail("the server does not close a connection that the client closed");
        R.rc = vnet::remote_connect(9001);
        if (R.rc < 0) return hx::fail("the listener does not listen any more");
        R.sent[3] = 1;
        R.norder = 0;
        std::string b = enc(3);
        vnet::remote_send(R.rc, b.data(), b.size());
    };
    s->finish = [] {
        if (!same_wire) return;
        if (R.phase != 3) return hx::fail("the exchange stops");
        if (R.norder != 1 || R.order[0] != 3) return hx::fail("after a malformed stream another connection does not work");
        auto& s = vnet::st().s[R.rc];
        if (std::string(s.d, s.n) != enc_resp(3)) return hx::fail("after a malformed stream another connection gets no proper response");
    };
    out.sys.reset(s);
    *rt::points_on = false;
    out.opt.table_bits = 25;
    out.opt.budget[4] = thorough ? 3 : 2;
    out.opt.max_depth = 4000;
    out.opt.seconds = thorough ? 800 : 60;
    out.bounds = (cuts ? "two streams of requests cut off at every byte" : std::to_string(streams->size()) + " valid and malformed streams") + ", up to " + std::to_string(out.opt.budget[4]) + " partial deliveries of any length; then another connection";
    return true;
}
// ---- a peer of the client that misbehaves
static bool mk_peer(const std::string&, bool thorough, hx::Setup& out)
{
    calibrated();
    rpc_setup(1, false);
    R.stream = 0;
    auto* s = new Rpc;
    s->faults = false;
    s->regions = {{&R, sizeof R}, {&vnet::st(), sizeof(vnet::State)}};
    s->horizon = 0;
    // the listener of the service accepts nothing (it does not listen): the harness answers on the connections
    s->next = [](std::vector<ex::Choice>& o) {
        ex::Choice c;
        c.t = T_NET;
        if (!same_wire) return false;
        if (R.phase == 0) { c.a = N_NEXT; c.b = 0; o.push_back(c); return true; }
        // the end of the harness of an open connection with a complete request
        auto& N = vnet::st();
        for (int i = 0; i < vnet::NS; i++)
            if (is_conn(i) && !N.s[i].remote && N.s[i].peer >= 0 && N.s[N.s[i].peer].n > 0 && N.s[i].n == 0)
            {
                int total = (int)enc_resp(0).size();
                int nth = R.rdone;
                c.a = N_STREAM; c.b = i;
                c.c = total; // properly
                o.push_back(c);
                if (nth < 2)
                    for (int k = 0; k < total; k++) // k bytes and then the end, or a reset
                    {
                        c.cls = 5;
                        c.c = k;
                        o.push_back(c);
                        c.c = 100 + k;
                        o.push_back(c);
                    }
                return true;
            }
        for (int i = 0; i < NRQ; i++)
            if (R.sent[i] && !R.done[i]) { hx::fail("request %d never completes", i); return false; }
        if (R.phase < 3) { c.a = N_NEXT; c.b = 0; c.c = R.phase; o.push_back(c); return true; }
        return false;
    };
    s->do_next = [](const ex::Choice& c) {
        auto& N = vnet::st();
        if (c.a == N_NEXT)
        {
            int p = R.phase++;
            hx::in_world([p] { if (p == 0) { do_send(0); do_send(1); } if (p == 1) do_send(2); if (p == 2) do_send(3); }, "send");
            return;
        }
        auto& cl = N.s[c.b];
        auto& sv = N.s[cl.peer];
        // which request is it?
        std::string w(sv.d, sv.n);
        int id = -1;
        for (int i = 0; i < NRQ; i++)
            if (w == enc(i)) id = i;
        if (id < 0) return hx::fail("what the client writes is not one request");
        if (!R.sent[id] || R.done[id]) return hx::fail("the client writes a request that was not sent or is complete");
        sv.n = sv.in_n = 0;
        std::string a = enc_resp(id);
        R.rdone++;
        if (c.c == (int)a.size()) vnet::remote_send(cl.peer, a.data(), a.size());
        else if (c.c < 100) { vnet::remote_send(cl.peer, a.data(), c.c); cl.fin_flight = true; R.faults++; }
        else { vnet::remote_send(cl.peer, a.data(), c.c - 100); vnet::deliver(c.b, c.c - 100); settle(); vnet::kill(c.b, true); R.faults++; }
        R.reached[id] = 1;
        hx::cov("answers of a peer");
    };
    s->finish = [] {
        for (int i = 0; i < NRQ; i++)
            if (R.sent[i] && !R.done[i]) return hx::fail("request %d never completes", i);
        if (!same_wire) return;
        if (R.phase != 3) return hx::fail("the exchange stops");
        if (!R.ok[3]) return hx::fail("the client does not recover from a peer that misbehaved");
    };
    out.sys.reset(s);
    *rt::points_on = false;
    out.opt.table_bits = 25;
    out.opt.budget[4] = thorough ? 2 : 1;
    out.opt.budget[5] = 2;
    out.opt.max_depth = 4000;
    out.opt.seconds = thorough ? 800 : 60;
    out.bounds = "a peer that answers up to two of four requests with any part of the response and then closes or resets, up to " + std::to_string(out.opt.budget[4]) + " partial deliveries";
    return true;
}
// ---- threads
static void caller(void* a) { do_send((int)(intptr_t)a); if ((intptr_t)a == 0) do_send(3); }
static bool mk_rpcthr(const std::string& r, bool thorough, hx::Setup& out)
{
    int nw = r[0] - '0', nc = r[1] - '0';
    rpc_setup(nw, true);
    bool fine = r.find('+') != std::string::npos;
    for (int i = 0; i < nc; i++) rt::spawn(caller, (void*)(intptr_t)i, 0);
    auto* s = new Rpc;
    s->threads = true;
    s->parts = false;
    s->faults = r.find('f') != std::string::npos;
    s->regions = {{&R, sizeof R}, {&vnet::st(), sizeof(vnet::State)}};
    s->horizon = 0;
    s->finish = [nc] {
        for (int i = 0; i < NRQ; i++)
            if (R.sent[i] && !R.done[i]) return hx::fail("request %d never completes: %s", i, hx::stuck().c_str());
        for (int i = 0; i < nc; i++)
            if (!R.sent[i]) return hx::fail("send() waits forever: %s", hx::stuck().c_str());
    };
    out.sys.reset(s);
    *rt::points_on = true;
    out.opt.table_bits = 26;
    if (fine)
    {
        if (auto* b = rt::block_of(client->get())) rt::watch(b + 1, b->req);
        *rt::watch_on = true;
    }
    out.opt.budget[1] = (s->faults ? 1 : fine ? 2 : nw == 2 && nc == 2 ? 2 : 3) + thorough;
    out.opt.budget[5] = 1;
    out.opt.max_depth = 4000;
    out.opt.seconds = thorough ? 800 : 60;
    out.bounds = std::to_string(nc) + " calling threads, " + std::to_string(nw) + " service threads: all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions" + (fine ? ", also at every access to the client" : "") + (s->faults ? ", a failure anywhere" : "");
    return true;
}
static bool make(const std::string& scen, int, bool thorough, hx::Setup& out)
{
    size_t d = scen.find('-');
    if (d == std::string::npos) return false;
    std::string k = scen.substr(0, d), r = scen.substr(d + 1);
    if (k == "timer") return mk_timer(r, thorough, out);
    if (k == "stop") return mk_stop(r, thorough, out);
    if (k == "lines") return mk_lines(r, thorough, out);
    if (k == "echo") return mk_echo(r, thorough, out);
    if (k == "raw") return mk_raw(r, thorough, out);
    if (k == "peer") return mk_peer(r, thorough, out);
    if (k == "rpcthr") return mk_rpcthr(r, thorough, out);
    return false;
}
int main(int argc, char** argv)
{
    std::vector<std::string> names = {"timer-11", "timer-12", "timer-21", "timer-11s", "timer-21x", "timer-22x", "timer-11l", "timer-12l", "stop-110", "stop-111", "stop-112", "stop-210", "stop-211", "stop-121", "stop-110t", "stop-110+", "stop-111k", "lines-1", "echo-001", "echo-011", "echo-021", "echo-002", "echo-101", "echo-201", "echo-301", "echo-401", "echo-501", "raw-all", "raw-cut", "peer-all", "rpcthr-11", "rpcthr-12", "rpcthr-22", "rpcthr-12f", "rpcthr-22f", "rpcthr-12+", "rpcthr-22+"};
    return hx::main(argc, argv, "svc", names, make);
}
