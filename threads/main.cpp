// Thread schedules: the asynchronous result (C14) and the server with its committing thread (C15).
#include "../rt/harness.hpp"
#include "cornerstone.hxx"
#include <cstring>
#include <stdexcept>

using namespace cornerstone;

// ================================================================ asynchronous result
typedef async_result<int> ar;
typedef ptr<std::exception> eptr;
// what the threads do: setter (value or error), registrations, waiters
struct ACase { int ctor; bool err; int nreg; int nwait; bool hthrow; };
static struct
{
    ptr<ar>* r;
    ar* raw;
    ACase c;
    bool set_begun;
    int calls[3]; // handler of the constructor, of the first and of the second registration
    int returned;
    int ready[2]; // registrations: 1 done
} AR;
static eptr* the_err;
const int VAL = 4711;
static void on_handler(int k, int v, const eptr& e)
{
    AR.calls[k]++;
    if (!AR.set_begun) hx::fail("a handler is called before the result is set");
    if (AR.c.err ? e != *the_err : (v != VAL || e)) hx::fail("a handler is called with something else than the result");
    if (AR.c.hthrow) throw std::runtime_error("thrown by the handler");
}
static void a_set(void*)
{
    AR.set_begun = true;
    int v = VAL;
    eptr e = AR.c.err ? *the_err : eptr();
    try { (*AR.r)->set_result(v, e); }
    catch (const std::runtime_error&) { if (!AR.c.hthrow) hx::fail("set_result throws"); }
}
static void a_reg(void* arg)
{
    int k = (int)(intptr_t)arg;
    try { (*AR.r)->when_ready([k](int& v, const eptr& e) { on_handler(k, v, e); }); }
    catch (const std::runtime_error&) { if (!AR.c.hthrow) hx::fail("when_ready throws"); }
    AR.ready[k - 1] = 1;
}
static void a_wait(void*)
{
    bool err = false;
    int v = 0;
    try { v = (*AR.r)->get(); }
    catch (const eptr& e)
    {
        err = true;
        if (e != *the_err) hx::fail("get() throws something else than the error");
    }
    if (!AR.set_begun) hx::fail("get() returns before the result is set");
    if (err != AR.c.err || (!err && v != VAL)) hx::fail("get() does not return the result");
    AR.returned++;
}
struct Async : hx::ThreadSys
{
    static std::vector<ACase>* cases;
    static int chosen;
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (chosen >= 0) return ThreadSys::enabled(out);
        for (size_t i = 0; i < cases->size(); i++)
        {
            ex::Choice c;
            c.t = 9; c.a = i;
            out.push_back(c);
        }
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::apply(c);
        chosen = c.a;
        ACase k = (*cases)[c.a];
        memset((void*)&AR, 0, sizeof AR);
        AR.c = k;
        hx::in_world([&] {
            the_err = new eptr(cs_new<std::runtime_error>("the error"));
            AR.r = new ptr<ar>();
            if (k.ctor == 0) *AR.r = cs_new<ar>();
            else if (k.ctor == 1)
            {
                ar::handler_type h = [](int& v, const eptr& e) { on_handler(0, v, e); };
                *AR.r = cs_new<ar>(h);
            }
            else
            {
                int v = VAL;
                AR.set_begun = true;
                *AR.r = cs_new<ar>(v);
            }
            AR.raw = AR.r->get();
        }, "creating the result");
        rt::watch_clear();
        rt::watch(AR.raw, sizeof(ar));
        hx::threads_reset();
        if (k.ctor != 2) rt::spawn(a_set, nullptr, 1);
        for (int i = 0; i < k.nreg; i++) rt::spawn(a_reg, (void*)(intptr_t)(i + 1), 1);
        for (int i = 0; i < k.nwait; i++) rt::spawn(a_wait, nullptr, 1);
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::text(c);
        ACase& k = (*cases)[c.a];
        char s[160];
        snprintf(s, sizeof s, "[%s, %s, %d registrations, %d waiters%s]", k.ctor == 0 ? "no result yet" : k.ctor == 1 ? "handler given at construction" : "result given at construction", k.err ? "error" : "value", k.nreg, k.nwait, k.hthrow ? ", handler throws" : "");
        return s;
    }
};
std::vector<ACase>* Async::cases;
int Async::chosen = -1;
static void a_finish()
{
    if (Async::chosen < 0) return;
    if (!hx::all_done()) return hx::fail("the result is set but %s", hx::stuck().c_str());
    if (AR.returned != AR.c.nwait) return hx::fail("%d of %d waiters have returned", AR.returned, AR.c.nwait);
    if (AR.c.ctor == 1 && AR.c.nreg == 0 && AR.calls[0] != 1) return hx::fail("the handler given at construction was called %d times", AR.calls[0]);
    if (AR.c.nreg == 1 && AR.calls[1] != 1) return hx::fail("the registered handler was called %d times", AR.calls[1]);
    for (int k = 0; k < 3; k++)
        if (AR.calls[k] > 1) return hx::fail("a handler was called %d times", AR.calls[k]);
    // of two registrations the last one before the result counts, and every later one
    if (AR.c.nreg == 2 && AR.calls[1] + AR.calls[2] < 1) return hx::fail("none of the registered handlers was called");
}

// ================================================================ the server and its committing thread
const int MAXL = 24;
static struct
{
    raft_server* rs;
    // log
    uint64_t start;
    int n;
    struct { uint64_t term; int type; char d[400]; int len; } e[MAXL];
    uint64_t applied, applied_n;
    bool in_commit;
    uint64_t snap_idx, snap_term, snap_size;
    bool destroyed, alive;
    bool has_state;
    uint64_t term;
    int vote;
    char conf[300];
    int conf_len;
    int exits;
    int nmembers;
    int acked; // client calls that were accepted
} SV;
static ptr<delayed_task>* el_task;
static std::vector<ptr<resp_msg>>* garbage;

static void used(const char* what)
{
    if (SV.destroyed) hx::fail("%s is called after the server was destroyed", what);
}
class Store : public log_store
{
public:
    ulong next_slot() const override { rt::point(); used("the log store"); return SV.start + SV.n; }
    ulong start_index() const override { return SV.start; }
    static ptr<log_entry> mk(int k)
    {
        bufptr b = buffer::alloc(SV.e[k].len);
        memcpy(b->data(), SV.e[k].d, SV.e[k].len);
        return cs_new<log_entry>(SV.e[k].term, std::move(b), (log_val_type)SV.e[k].type);
    }
    ptr<log_entry> last_entry() const override
    {
        if (!SV.n) return cs_new<log_entry>(0, buffer::alloc(0));
        return mk(SV.n - 1);
    }
    void put(int k, log_entry& e)
    {
        if (k >= MAXL) rt::abort_check("log too long");
        buffer& b = e.get_buf();
        SV.e[k].term = e.get_term();
        SV.e[k].type = e.get_val_type();
        SV.e[k].len = (int)b.size();
        if (SV.e[k].len > (int)sizeof SV.e[k].d) rt::abort_check("entry too large");
        memcpy(SV.e[k].d, b.data() - b.pos(), b.size());
        SV.n = k + 1;
    }
    ulong append(ptr<log_entry>& e) override { rt::point(); put(SV.n, *e); return SV.start + SV.n - 1; }
    void write_at(ulong i, ptr<log_entry>& e) override { rt::point(); put((int)(i - SV.start), *e); }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        auto v = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = a; i < b && i < SV.start + SV.n; i++) v->push_back(mk((int)(i - SV.start)));
        return v;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        rt::point();
        used("the log store");
        if (i < SV.start) throw std::range_error("index out of range");
        if (i >= SV.start + SV.n) return ptr<log_entry>();
        return mk((int)(i - SV.start));
    }
    ulong term_at(ulong i) override
    {
        if (i < SV.start || i >= SV.start + SV.n) return 0;
        return SV.e[i - SV.start].term;
    }
    bufptr pack(ulong, int32) override { return buffer::alloc(0); }
    void apply_pack(ulong, buffer&) override {}
    bool compact(ulong i) override
    {
        rt::point();
        if (i < SV.start) throw std::range_error("index out of range");
        int k = (int)(i + 1 - SV.start);
        if (k >= SV.n) SV.n = 0;
        else
        {
            memmove((void*)&SV.e[0], &SV.e[k], sizeof SV.e[0] * (SV.n - k));
            SV.n -= k;
        }
        SV.start = i + 1;
        return true;
    }
};
static ptr<cluster_config> mk_conf()
{
    ptr<cluster_config> c = cs_new<cluster_config>();
    for (int i = 1; i <= SV.nmembers; i++) c->get_servers().push_back(cs_new<srv_config>(i, "s" + std::to_string(i)));
    return c;
}
class Mgr : public state_mgr
{
public:
    ptr<cluster_config> load_config() override { return mk_conf(); }
    void save_config(const cluster_config&) override { used("the state manager"); }
    void save_state(const srv_state& s) override
    {
        SV.has_state = true;
        SV.term = s.get_term();
        SV.vote = s.get_voted_for();
    }
    ptr<srv_state> read_state() override
    {
        if (!SV.has_state) return ptr<srv_state>();
        auto s = cs_new<srv_state>();
        s->set_term(SV.term);
        s->set_voted_for(SV.vote);
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<Store>(); }
    int32 server_id() override { return 1; }
    void system_exit(const int) override
    {
        SV.exits++;
        hx::fail("the server wants to end the process");
        rt::abandon();
    }
};
class SMach : public state_machine
{
public:
    void commit(const ulong i, buffer&, const uptr<log_entry_cookie>&) override
    {
        used("commit");
        if (SV.in_commit) hx::fail("commit is called while commit is running");
        SV.in_commit = true;
        rt::point();
        SV.in_commit = false;
        if (i <= SV.applied) hx::fail("entry %lu is applied after entry %lu", (unsigned long)i, (unsigned long)SV.applied);
        SV.applied = i;
        SV.applied_n++;
        used("commit");
    }
    void pre_commit(const ulong, buffer&, const uptr<log_entry_cookie>&) override {}
    void rollback(const ulong, buffer&, const uptr<log_entry_cookie>&) override {}
    void save_snapshot_data(snapshot&, const ulong, buffer&) override {}
    bool apply_snapshot(snapshot& s) override
    {
        if (SV.in_commit) hx::fail("a snapshot is installed while commit is running");
        rt::point();
        if (SV.in_commit) hx::fail("commit runs while a snapshot is installed");
        if (s.get_last_log_idx() > SV.applied) SV.applied = s.get_last_log_idx();
        SV.snap_idx = s.get_last_log_idx();
        SV.snap_term = s.get_last_log_term();
        SV.snap_size = s.size();
        return true;
    }
    int read_snapshot_data(snapshot&, const ulong, buffer&) override { return 0; }
    ptr<snapshot> last_snapshot() override
    {
        if (!SV.snap_idx) return ptr<snapshot>();
        ptr<cluster_config> c = mk_conf();
        return cs_new<snapshot>(SV.snap_idx, SV.snap_term, c, SV.snap_size);
    }
    ulong last_commit_index() override { return SV.applied; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        used("create_snapshot");
        SV.snap_idx = s.get_last_log_idx();
        SV.snap_term = s.get_last_log_term();
        SV.snap_size = 8;
        bool r = true;
        ptr<std::exception> e;
        done(r, e);
    }
};
class Cli : public rpc_client
{
public:
    void send(ptr<req_msg>&, rpc_handler&) override {} // never answered
};
class Fac : public rpc_client_factory
{
public:
    ptr<rpc_client> create_client(const std::string&) override { return cs_new<Cli>(); }
};
class Sch : public delayed_task_scheduler
{
public:
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        if (ms > 150 && el_task) *el_task = t;
    }
private:
    void cancel_impl(ptr<delayed_task>&) override {}
};
class Lg : public logger
{
public:
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string& s) override { if (s.find("background") != std::string::npos) hx::fail("%s", s.c_str()); }
};
class Ev : public raft_event_listener
{
public:
    void on_event(raft_event) override { rt::point(); used("the event listener"); }
};
static void ap(uint64_t prev, uint64_t pterm, uint64_t commit, int n, int type = log_val_type::app_log, uint64_t term = 1)
{
    auto q = cs_new<req_msg>((ulong)term, msg_type::append_entries_request, 2, 1, (ulong)pterm, (ulong)prev, (ulong)commit);
    for (int i = 0; i < n; i++)
    {
        bufptr b = buffer::alloc(0);
        if (type == log_val_type::conf)
        {
            ptr<cluster_config> c = mk_conf();
            c->set_log_idx(prev + 1 + i);
            b = c->serialize();
        }
        else
        {
            b = buffer::alloc(4);
            b->put((int32)7);
            b->pos(0);
        }
        q->log_entries().push_back(cs_new<log_entry>(term, std::move(b), (log_val_type)type));
    }
    auto r = SV.rs->process_req(*q);
    if (!r || !r->get_accepted()) hx::fail("an append request is declined");
}
static bool snap_req(uint64_t idx)
{
    ptr<cluster_config> c = mk_conf();
    ptr<snapshot> s = cs_new<snapshot>((ulong)idx, (ulong)1, c, (ulong)4);
    bufptr data = buffer::alloc(4);
    data->put((int32)1);
    data->pos(0);
    auto sr = cs_new<snapshot_sync_req>(s, (ulong)0, std::move(data), true);
    auto q = cs_new<req_msg>((ulong)1, msg_type::install_snapshot_request, 2, 1, (ulong)1, (ulong)idx, (ulong)idx);
    q->log_entries().push_back(cs_new<log_entry>((ulong)1, sr->serialize(), log_val_type::snp_sync_req));
    auto r = SV.rs->process_req(*q);
    return r && r->get_accepted();
}
static void cli()
{
    bufptr b = buffer::alloc(4);
    b->put((int32)9);
    b->pos(0);
    ptr<void> ck;
    if (SV.rs->replicate_log(b, ck, 0)) SV.acked++;
}
static void cli2()
{
    std::vector<bufptr> v;
    bufptr b = buffer::alloc(4);
    b->put((int32)9);
    b->pos(0);
    v.push_back(std::move(b));
    auto r = SV.rs->append_entries(v);
    if (r->get()) SV.acked++;
}
static void timeout()
{
    if (el_task && *el_task) (*el_task)->execute();
}
static struct { int scen; bool destroy; int users; uint64_t want; } SC;
static void user_a(void*)
{
    switch (SC.scen)
    {
        case 0: ap(0, 0, 0, 1); ap(1, 1, 1, 1); ap(2, 1, 2, 0); break;
        case 1: ap(0, 0, 1, 2); break;
        case 2: cli(); cli(); break;
        case 3: ap(0, 0, 1, 1, log_val_type::conf); ap(1, 1, 2, 1); break;
        case 4: // declined while an entry is being applied: sent again
            ap(0, 0, 2, 2);
            for (int i = 0; i < 3; i++)
                if (snap_req(4)) { SC.want = 5; ap(4, 1, 5, 1); break; }
            break;
        case 5: ap(0, 0, 4, 4); break;
        case 6: cli(); break;
        case 7: // the snapshot may be installed while the committing thread waits to apply the configuration
            ap(0, 0, 2, 1, log_val_type::conf);
            ap(1, 1, 2, 1);
            for (int i = 0; i < 3; i++)
                if (snap_req(4)) { SC.want = 5; ap(4, 1, 5, 1); break; }
            break;
    }
    SC.users--;
    rt::wake_user(&SC);
}
static void user_b(void*)
{
    switch (SC.scen)
    {
        case 1: ap(0, 0, 0, 1); ap(0, 0, 2, 0 + 2); break;
        case 2: cli2(); break;
        case 5: timeout(); break;
        default: break;
    }
    SC.users--;
    rt::wake_user(&SC);
}
static void destroyer(void*)
{
    while (SC.users) rt::block_user(&SC, -1);
    SV.alive = false;
    delete SV.rs;
    SV.destroyed = true;
}
static void s_setup(int scen, bool destroy)
{
    memset((void*)&SV, 0, sizeof SV);
    SV.start = 1;
    SV.vote = -1;
    SC.scen = scen;
    SC.destroy = destroy;
    SV.nmembers = scen == 2 || scen == 6 ? 1 : 3;
    hx::in_world([&] {
        el_task = new ptr<delayed_task>();
        ptr<state_mgr> m = cs_new<Mgr>();
        ptr<state_machine> sm = cs_new<SMach>();
        ptr<rpc_listener> nl;
        ptr<logger> lg = cs_new<Lg>();
        ptr<rpc_client_factory> f = cs_new<Fac>();
        ptr<delayed_task_scheduler> sc = cs_new<Sch>();
        ptr<raft_event_listener> ev = cs_new<Ev>();
        raft_params* p = new raft_params;
        p->with_election_timeout_lower(200).with_election_timeout_upper(400).with_hb_interval(100).with_max_append_size(50).with_rpc_failure_backoff(50);
        if (scen == 5) p->with_snapshot_enabled(2).with_log_sync_stopping_gap(1);
        else p->with_snapshot_enabled(0);
        SV.rs = new raft_server(new context(m, sm, nl, lg, f, sc, ev, p));
        SV.alive = true;
        if (scen == 2 || scen == 6) timeout(); // becomes the leader
    }, "starting a server");
    SC.want = scen == 0 ? 2 : scen == 1 ? 2 : scen == 3 ? 1 : scen == 4 || scen == 7 ? 2 : scen == 5 ? 4 : 0;
}
struct Server : hx::ThreadSys
{
    static bool started;
    void apply(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::apply(c);
        started = true;
        hx::threads_reset();
        SC.users = 1;
        rt::spawn(user_a, nullptr, 1);
        if (SC.scen == 1 || SC.scen == 2 || SC.scen == 5)
        {
            SC.users++;
            rt::spawn(user_b, nullptr, 1);
        }
        if (SC.destroy) rt::spawn(destroyer, nullptr, 1);
    }
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (started) return ThreadSys::enabled(out);
        ex::Choice c;
        c.t = 9;
        out.push_back(c);
    }
    std::string text(const ex::Choice& c) override { return c.t == 9 ? "start" : ThreadSys::text(c); }
};
bool Server::started;
static void s_finish()
{
    if (!Server::started) return;
    if (SC.users) return hx::fail("a call never returns: %s", hx::stuck().c_str());
    if (SC.destroy)
    {
        if (!SV.destroyed) return hx::fail("the destructor never returns: %s", hx::stuck().c_str());
        if (!hx::all_done()) return hx::fail("the server is destroyed but %s", hx::stuck().c_str());
        return;
    }
    uint64_t last = SV.start + SV.n - 1;
    switch (SC.scen)
    {
        case 2: case 6:
            if (SV.applied != last) return hx::fail("entries up to %lu are committed, but only those up to %lu are applied and nothing goes on", (unsigned long)last, (unsigned long)SV.applied);
            if (SV.acked != (SC.scen == 2 ? 3 : 1)) return hx::fail("a client call on a single server that leads is not accepted");
            break;
        case 3:
            if (SV.applied != 2) return hx::fail("entries up to 2 are committed, but only those up to %lu are applied and nothing goes on", (unsigned long)SV.applied);
            break;
        default:
            if (SV.applied != SC.want) return hx::fail("entries up to %lu are committed, but only those up to %lu are applied and nothing goes on", (unsigned long)SC.want, (unsigned long)SV.applied);
    }
}

static bool make(const std::string& scen, int prop, bool thorough, hx::Setup& out)
{
    out.opt.table_bits = 26;
    out.opt.seconds = thorough ? 700 : 60;
    out.opt.max_depth = 1000;
    if (scen.rfind("async", 0) == 0)
    {
        static std::vector<ACase> cs;
        cs.clear();
        bool three = scen == "async-3";
        if (!three)
        {
            for (int err = 0; err < 2; err++)
                for (int ht = 0; ht < 2; ht++)
                {
                    cs.push_back({0, !!err, 1, 0, !!ht});
                    cs.push_back({0, !!err, 1, 1, !!ht});
                    cs.push_back({1, !!err, 0, 1, !!ht});
                }
            cs.push_back({0, false, 0, 1, false});
            cs.push_back({0, true, 0, 1, false});
            cs.push_back({0, false, 0, 2, false});
            cs.push_back({2, false, 1, 1, false});
            cs.push_back({1, false, 1, 0, false});
            cs.push_back({0, false, 2, 0, false});
        }
        else
        {
            cs.push_back({0, false, 1, 2, false});
            cs.push_back({0, true, 1, 2, true});
            cs.push_back({0, false, 2, 1, false});
            cs.push_back({1, false, 1, 2, false});
            cs.push_back({2, false, 2, 2, false});
        }
        Async::cases = &cs;
        Async::chosen = -1;
        auto* t = new Async;
        t->spurious = true;
        t->finish = a_finish;
        t->regions = {{&AR, sizeof AR}, {&Async::chosen, sizeof(int)}};
        out.sys.reset(t);
        *rt::points_on = true;
        *rt::watch_on = true;
        out.opt.budget[1] = (three ? 6 : 12) + 4 * thorough;
        out.opt.budget[2] = 1 + thorough;
        out.bounds = std::to_string(cs.size()) + " combinations of setter, registrations and waiters, all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions at locks and accesses to the result, up to " + std::to_string(out.opt.budget[2]) + " spurious wake-ups";
        return true;
    }
    int k = -1;
    char mode[16] = "", fine = 0;
    if (sscanf(scen.c_str(), "srv%d-%15[a-z]%c", &k, mode, &fine) < 2) return false;
    bool destroy = !strcmp(mode, "destroy");
    s_setup(k, destroy);
    Server::started = false;
    auto* t = new Server;
    t->spurious = true;
    t->finish = s_finish;
    t->regions = {{&SV, sizeof SV}, {&SC, sizeof SC}, {&Server::started, sizeof(bool)}};
    out.sys.reset(t);
    *rt::points_on = true;
    *rt::watch_on = true; // no access to freed memory
    if (fine) rt::watch(SV.rs, sizeof(raft_server));
    out.opt.budget[1] = (fine ? 2 : k == 2 ? 3 : 4) + thorough;
    out.opt.budget[2] = thorough || (destroy && !fine) ? 1 : 0;
    static const char* what[] = {"three append requests", "two request threads", "a leading server with two client threads", "a committed configuration", "entries, a snapshot and more entries", "entries with snapshots created locally, and an election timeout", "a leading server and a client", "a committed configuration, an entry, a snapshot and another entry"};
    out.bounds = std::string(what[k]) + (destroy ? ", then the server is destroyed" : "") + "; the committing thread at any speed; all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions at locks, conditions, calls of the log store, state machine and listener" + (fine ? " and every access to a member of the server" : "") + (out.opt.budget[2] ? ", one spurious wake-up" : "");
    return true;
}
int main(int argc, char** argv)
{
    std::vector<std::string> names = {"async-2", "async-3"};
    for (int k = 0; k < 8; k++)
        for (const char* m : {"idle", "destroy", "idle+", "destroy+"}) names.push_back("srv" + std::to_string(k) + "-" + m);
    return hx::main(argc, argv, "threads", names, make);
}
