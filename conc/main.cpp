// Calls made at the same time on one server (C24): pairs and triples of requests, responses, timer events and
// client calls, each on a thread of its own, in several states of a real raft_server, next to its committing
// thread. Oracle: the results, the log, what was persisted and what was applied are those of the same calls made
// one after the other in some order (computed by exploring the code with the calls serialised by the harness);
// monitors look at every message, vote and write on the way. At the end a leader gets honest answers: everything in
// its log must be committed and applied.
#include "../rt/harness.hpp"
#include "cornerstone.hxx"
#include <algorithm>
#include <cstring>
#include <stdexcept>

using namespace cornerstone;

// what fails counts for these properties (and for C24); faults of the process count for C10
static int prop_run;
static uint32_t bad_mask;
#define FAIL(mask, ...) ((void)(hx::failed() ? 0 : (bad_mask = (mask), 0)), hx::fail(__VA_ARGS__))
static uint32_t P(int a, int b = 0, int c = 0) { return (b ? 1u << b : 0) | (c ? 1u << c : 0) | (a ? 1u << a : 0); }

enum Ev
{
    V2, V3, V3N, P3, A2, A2S, A3N, SN, ET, HB2, HB3, VR2, VR3, VR3N, AR2, AR3, AR3N, AR3D, E2, CLI, APP, APF, ADD, RM, ADD5, JR4, SR4, ISL, LV, LR3, PR2, PR3, SD, HBC, SN5, NEV
};
static const char* EVN[] = {"vote request of 2", "vote request of 3", "vote request of 3 with a newer term", "pre-vote request of 3", "append request of 2", "the last append request of 2 again", "append request of the next leader 3", "snapshot from 2", "election timeout", "heartbeat timer of 2", "heartbeat timer of 3", "vote of 2", "vote of 3", "refused vote of 3 with a newer term", "acknowledgement of 2", "acknowledgement of 3", "answer of 3 with a newer term", "declined append of 3", "failed request to 2", "replicate_log", "append_entries", "append_entries of two values", "add_srv(4)", "remove_srv(3)", "add_srv(5)", "join response of 4", "log sync response of 4", "is_leader", "leave request", "leave response of 3", "pre-vote of 2", "pre-vote of 3", "completion of the snapshot", "heartbeat of 2 that commits the change", "snapshot from 2 behind the change"};
const int MAXL = 16, MAXE = 4, MAXMSG = 40;
static struct
{
    raft_server* rs;
    uint64_t start;
    int n;
    struct { uint64_t term; int type; uint8_t d[360]; int len; } e[MAXL];
    bool has_state;
    uint64_t term;
    int vote;
    uint8_t conf[360];
    int conf_len;
    uint64_t applied;     // last application entry
    uint64_t app_h;       // what was applied, in order
    uint64_t snap_idx, snap_term, snap_size;
    int writing, saving, sm; // threads inside these calls
    // what the calls returned
    struct { int done; int kind; uint64_t term; int ok; uint64_t next; } r[MAXE];
    uint64_t pre_h[MAXL]; // announcements and roll-backs per index
    // the vote of every term
    int voted[8];
    int nmsg; // messages sent
    uint64_t begun_ev;
    bool draining;
    uint64_t commit0, term0, conf_idx;
    uint8_t ann[MAXL]; // announced
    int put[3][MAXE];  // how often the values of a call were appended
    uint64_t put_at[3][MAXE];
    bool started, root;
    int skip; // timer events that find their timer cancelled
} W;
struct Msg { ptr<req_msg> q; rpc_handler h; int dst; };
static async_result<bool>::handler_type* snap_done; // of the snapshot that is being created
static std::vector<Msg>* msgs;                 // messages without an answer so far
static std::vector<Msg>* rootmsgs;             // those that were sent before the calls begin
static ptr<delayed_task>* el_task;
static std::vector<ptr<delayed_task>>* hb_tasks; // by peer
struct Combo { int n; int ev[3]; };
static std::vector<Combo>* combos;
// the request that a call answers
static int answers(int e)
{
    switch (e)
    {
        case AR2: case E2: return 1;
        case AR3: case AR3N: case AR3D: return 2;
        case VR2: return 3;
        case VR3: case VR3N: return 4;
        default: return 0;
    }
}
static int rootk;
static bool impossible(const Combo& c)
{
    for (int i = 0; i < c.n; i++)
        for (int j = i + 1; j < c.n; j++)
        {
            int a = c.ev[i], b = c.ev[j];
            if (answers(a) && answers(a) == answers(b)) return true;               // two answers to one request
            if ((a == VR2 || a == VR3) && b == A2) return true;                    // two leaders in one term
            // the answer of a member that is removed at the same time may be heeded or not
            if (c.n > 2 && rootk == 3 && a == AR3N && b == ADD) return true;
        }
    return false;
}
static int chosen = -1;
static bool fine, seqmode;

static void vote_of(uint64_t term, int who, const char* how)
{
    if (term >= 8) return;
    if (W.voted[term] && W.voted[term] != who) FAIL(P(2), "the server votes for %d and for %d in term %lu (%s)", W.voted[term], who, (unsigned long)term, how);
    W.voted[term] = who;
}
struct In // one thread at a time
{
    int& c;
    In(int& c_, const char* what) : c(c_)
    {
        if (c++) FAIL(0, "%s is called by two threads at the same time", what);
        rt::point();
    }
    ~In() { c--; }
};
struct Quiet // no switches in the harness' own data
{
    bool o;
    Quiet() : o(*rt::points_on) { *rt::points_on = false; }
    ~Quiet() { *rt::points_on = o; }
};
class Store : public log_store
{
public:
    ulong next_slot() const override { rt::point(); return W.start + W.n; }
    ulong start_index() const override { return W.start; }
    static ptr<log_entry> mk(int k)
    {
        bufptr b = buffer::alloc(W.e[k].len);
        memcpy(b->data(), W.e[k].d, W.e[k].len);
        return cs_new<log_entry>(W.e[k].term, std::move(b), (log_val_type)W.e[k].type);
    }
    ptr<log_entry> last_entry() const override
    {
        if (!W.n) return cs_new<log_entry>(0, buffer::alloc(0));
        return mk(W.n - 1);
    }
    void put(int k, log_entry& e)
    {
        if (k < 0 || k > W.n) { FAIL(0, "an entry is written at %lu, the log ends at %lu", (unsigned long)(W.start + k), (unsigned long)(W.start + W.n - 1)); return; }
        if (k >= MAXL) rt::abort_check("log too long");
        buffer& b = e.get_buf();
        W.e[k].term = e.get_term();
        W.e[k].type = e.get_val_type();
        W.e[k].len = (int)b.size();
        if (W.e[k].len > (int)sizeof W.e[k].d) rt::abort_check("entry too large");
        memset(W.e[k].d, 0, sizeof W.e[k].d);
        memcpy(W.e[k].d, b.data() - b.pos(), b.size());
        for (int i = k + 1; i < W.n; i++) memset((void*)&W.e[i], 0, sizeof W.e[i]);
        W.n = k + 1;
    }
    static void appended(log_entry& e)
    {
        if (W.root || e.get_term() != W.term) return;
        if (e.get_val_type() == log_val_type::conf)
            for (int i = 0; i < W.n; i++)
                if (W.e[i].type == log_val_type::conf && W.start + i > W.conf_idx) FAIL(P(7), "a membership change is appended while the one at %lu is not committed", (unsigned long)(W.start + i));
        if (e.get_val_type() == log_val_type::app_log && e.get_buf().size() == 4)
        {
            int v = 0;
            memcpy(&v, e.get_buf().data() - e.get_buf().pos(), 4);
            for (int w = 0; w < 3; w++)
            {
                int k = v - (w == 0 ? 900 : w == 1 ? 800 : 850);
                if (k < 0 || k >= MAXE) continue;
                W.put[w][k]++;
                W.put_at[w][k] = W.start + W.n;
            }
        }
    }
    ulong append(ptr<log_entry>& e) override
    {
        In in(W.writing, "the log store");
        appended(*e);
        put(W.n, *e);
        return W.start + W.n - 1;
    }
    void write_at(ulong i, ptr<log_entry>& e) override
    {
        In in(W.writing, "the log store");
        put((int)(i - W.start), *e);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        rt::point();
        auto v = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = a; i < b && i < W.start + W.n; i++) v->push_back(mk((int)(i - W.start)));
        return v;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        rt::point();
        if (i < W.start) throw std::range_error("index out of range");
        if (i >= W.start + W.n) return ptr<log_entry>();
        return mk((int)(i - W.start));
    }
    ulong term_at(ulong i) override
    {
        if (i < W.start || i >= W.start + W.n) return 0;
        return W.e[i - W.start].term;
    }
    bufptr pack(ulong, int32) override { return buffer::alloc(4); }
    void apply_pack(ulong, buffer&) override {}
    bool compact(ulong i) override
    {
        In in(W.writing, "the log store");
        if (i > W.snap_idx) FAIL(P(8), "the log is compacted up to %lu, the snapshot covers the entries up to %lu", (unsigned long)i, (unsigned long)W.snap_idx);
        if (i < W.start) throw std::range_error("index out of range");
        int k = (int)(i + 1 - W.start);
        if (k >= W.n) k = W.n;
        memmove((void*)&W.e[0], &W.e[k], sizeof W.e[0] * (W.n - k));
        for (int j = W.n - k; j < W.n; j++) memset((void*)&W.e[j], 0, sizeof W.e[j]);
        W.n -= k;
        W.start = i + 1;
        return true;
    }
};
static ptr<cluster_config> mk_conf(std::initializer_list<int> ids, ulong idx, ulong prev)
{
    ptr<cluster_config> c = cs_new<cluster_config>(idx, prev);
    for (int i : ids) c->get_servers().push_back(cs_new<srv_config>(i, "s" + std::to_string(i)));
    return c;
}
class Mgr : public state_mgr
{
public:
    ptr<cluster_config> load_config() override { return mk_conf({1, 2, 3}, 1, 0); }
    void save_config(const cluster_config& c) override
    {
        In in(W.saving, "the state manager");
        bufptr b = const_cast<cluster_config&>(c).serialize();
        if (b->size() > sizeof W.conf) rt::abort_check("configuration too large");
        memset(W.conf, 0, sizeof W.conf);
        memcpy(W.conf, b->data(), b->size());
        W.conf_len = (int)b->size();
        W.conf_idx = c.get_log_idx();
    }
    void save_state(const srv_state& s) override
    {
        In in(W.saving, "the state manager");
        if (s.get_term() < W.term) FAIL(P(2), "term %lu is persisted after term %lu", (unsigned long)s.get_term(), (unsigned long)W.term);
        W.has_state = true;
        W.term = s.get_term();
        W.vote = s.get_voted_for();
    }
    ptr<srv_state> read_state() override
    {
        auto s = cs_new<srv_state>();
        s->set_term(W.term);
        s->set_voted_for(W.vote);
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<Store>(); }
    int32 server_id() override { return 1; }
    void system_exit(const int) override
    {
        hx::fail("the server wants to end the process");
        rt::abandon();
    }
};
static uint64_t bh(buffer& b, uint64_t h) { return rt::hash_bytes(b.data() - b.pos(), b.size(), h); }
static void note(uint64_t& h, uint64_t i, buffer& b, int what) { h = bh(b, (h + i * 8 + what) * 0x9e3779b97f4a7c15ull + 1); }
class SMach : public state_machine
{
public:
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        In in(W.sm, "commit");
        if (i <= W.applied) FAIL(P(5), "entry %lu is applied after entry %lu", (unsigned long)i, (unsigned long)W.applied);
        for (uint64_t j = std::max(W.applied + 1, W.start); j < i && j < W.start + W.n; j++)
            if (W.e[j - W.start].type == log_val_type::app_log) FAIL(P(5), "entry %lu is applied, entry %lu was not", (unsigned long)i, (unsigned long)j);
        if (i >= W.start)
        {
            if (i >= W.start + W.n || (int)b.size() != W.e[i - W.start].len || memcmp(W.e[i - W.start].d, b.data() - b.pos(), b.size()) || W.e[i - W.start].type != log_val_type::app_log)
                FAIL(P(5), "entry %lu is applied with another content than the log has", (unsigned long)i);
        }
        if (i < MAXL && !W.ann[i]) FAIL(P(6), "entry %lu is committed without being announced", (unsigned long)i);
        W.applied = i;
        note(W.app_h, i, b, 1);
    }
    void pre_commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        rt::point();
        if (i < MAXL)
        {
            note(W.pre_h[i], i, b, 2);
            if (W.ann[i]) FAIL(P(6), "entry %lu is announced twice", (unsigned long)i);
            W.ann[i] = 1;
        }
    }
    void rollback(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        rt::point();
        if (i < MAXL)
        {
            note(W.pre_h[i], i, b, 3);
            if (!W.ann[i]) FAIL(P(6), "entry %lu is rolled back without being announced", (unsigned long)i);
            if (i <= W.applied) FAIL(P(6), "entry %lu is rolled back after it was committed", (unsigned long)i);
            W.ann[i] = 0;
        }
    }
    void save_snapshot_data(snapshot&, const ulong, buffer&) override { rt::point(); }
    bool apply_snapshot(snapshot& s) override
    {
        In in(W.sm, "the state machine");
        if (s.get_last_log_idx() > W.applied) W.applied = s.get_last_log_idx();
        W.snap_idx = s.get_last_log_idx();
        W.snap_term = s.get_last_log_term();
        W.snap_size = s.size();
        return true;
    }
    int read_snapshot_data(snapshot&, const ulong, buffer& b) override { return (int)b.size(); }
    ptr<snapshot> last_snapshot() override
    {
        if (!W.snap_idx) return ptr<snapshot>();
        ptr<cluster_config> c = mk_conf({1, 2, 3}, 1, 0);
        return cs_new<snapshot>(W.snap_idx, W.snap_term, c, W.snap_size);
    }
    ulong last_commit_index() override { return W.root ? W.applied : 1; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        W.snap_idx = s.get_last_log_idx();
        W.snap_term = s.get_last_log_term();
        W.snap_size = 8;
        if (W.root)
        {
            Quiet qu;
            snap_done = new async_result<bool>::handler_type(done);
            return;
        }
        bool r = true;
        ptr<std::exception> e;
        done(r, e);
    }
};
// every message that leaves
static void sent(int dst, req_msg& q)
{
    W.nmsg++;
    if (q.get_dst() != dst && q.get_dst() != 0) hx::fail("a message for %d is sent to %d", q.get_dst(), dst);
    if (q.get_type() == msg_type::vote_request)
    {
        if (q.get_term() != W.term || W.vote != 1) FAIL(P(2), "a vote request of term %lu is sent, persisted are term %lu and a vote for %d", (unsigned long)q.get_term(), (unsigned long)W.term, W.vote);
        vote_of(q.get_term(), 1, "it asks for votes");
    }
    if (q.get_type() == msg_type::append_entries_request)
    {
        if (q.get_term() != W.term) FAIL(P(2), "an append request of term %lu is sent, persisted is term %lu", (unsigned long)q.get_term(), (unsigned long)W.term);
        uint64_t i = q.get_last_log_idx();
        // who may lead, and what may be committed
        if (!W.root && q.get_term() > W.term0) FAIL(P(1), "the server leads in term %lu without a vote of another server", (unsigned long)q.get_term());
        if (!W.root && rootk == 1 && !(W.begun_ev & (1ull << VR2 | 1ull << VR3))) FAIL(P(1), "the server leads in term %lu without a vote of another server", (unsigned long)q.get_term());
        if (!W.root && !W.draining && q.get_commit_idx() > W.commit0 && !(W.begun_ev & (1ull << AR2 | 1ull << AR3)))
            FAIL(P(4), "the server says that entry %lu is committed, which nobody has acknowledged", (unsigned long)q.get_commit_idx());
        if (!W.root && !W.draining && q.get_commit_idx() > (uint64_t)(rootk == 9 ? 5 : 4)) FAIL(P(4), "the server says that entry %lu is committed, which nobody has acknowledged", (unsigned long)q.get_commit_idx());
        if (i >= W.start + W.n) return FAIL(P(3), "an append request follows entry %lu, the log ends at %lu", (unsigned long)i, (unsigned long)(W.start + W.n - 1));
        if (i >= W.start && q.get_last_log_term() != W.e[i - W.start].term) FAIL(P(3), "an append request says that entry %lu is of term %lu", (unsigned long)i, (unsigned long)q.get_last_log_term());
        for (auto& e : q.log_entries())
        {
            i++;
            if (i < W.start) continue;
            if (i >= W.start + W.n || W.e[i - W.start].term != e->get_term() || W.e[i - W.start].type != e->get_val_type() ||
                (int)e->get_buf().size() != W.e[i - W.start].len || memcmp(W.e[i - W.start].d, e->get_buf().data() - e->get_buf().pos(), e->get_buf().size()))
                return FAIL(P(3), "an append request carries an entry %lu which is not the one in the log", (unsigned long)i);
        }
        if (q.get_commit_idx() >= W.start + W.n) FAIL(P(4), "an append request says that entry %lu is committed, the log ends at %lu", (unsigned long)q.get_commit_idx(), (unsigned long)(W.start + W.n - 1));
    }
}
class Cli : public rpc_client
{
    int dst;
public:
    Cli(int d) : dst(d) {}
    void send(ptr<req_msg>& q, rpc_handler& h) override
    {
        if (!q) return hx::fail("a request without content is sent");
        rt::point();
        Quiet qu;
        sent(dst, *q);
        msgs->push_back(Msg{q, h, dst});
    }
};
class Fac : public rpc_client_factory
{
public:
    ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<Cli>(atoi(ep.c_str() + 1)); }
};
class Sch : public delayed_task_scheduler
{
public:
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        t->reset();
        Quiet qu;
        if (ms >= 200) *el_task = t;
        else if (W.root)
        {
            bool have = false;
            for (auto& x : *hb_tasks) have = have || x == t;
            if (!have && hb_tasks->size() < 8) hb_tasks->push_back(t);
        }
    }
private:
    void cancel_impl(ptr<delayed_task>&) override {}
};
class Lg : public logger
{
public:
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string& s) override { hx::fail("the server logs: %s", s.c_str()); }
};
class Lst : public raft_event_listener
{
public:
    void on_event(raft_event) override { rt::point(); }
};
// ---- the calls
static bufptr val(int v)
{
    bufptr b = buffer::alloc(4);
    b->put((int32)v);
    b->pos(0);
    return b;
}
static ptr<req_msg> ap(int src, uint64_t term, uint64_t prev, uint64_t pterm, uint64_t commit, std::initializer_list<uint64_t> terms)
{
    auto q = cs_new<req_msg>((ulong)term, msg_type::append_entries_request, src, 1, (ulong)pterm, (ulong)prev, (ulong)commit);
    uint64_t i = prev;
    for (uint64_t t : terms)
    {
        i++;
        q->log_entries().push_back(cs_new<log_entry>((ulong)t, val((int)(t * 100 + i)), log_val_type::app_log));
    }
    return q;
}
static void rec(int k, const ptr<resp_msg>& r)
{
    W.r[k].done = 1;
    W.r[k].kind = r ? 1 + r->get_type() : 0;
    if (!r) return;
    W.r[k].term = r->get_term();
    W.r[k].ok = r->get_accepted();
    W.r[k].next = r->get_next_idx();
}
static void rec(int k, bool b)
{
    W.r[k].done = 1;
    W.r[k].kind = 100;
    W.r[k].ok = b;
}
static void req(int k, const ptr<req_msg>& q)
{
    auto r = W.rs->process_req(*q);
    if (r && q->get_type() == msg_type::vote_request && r->get_accepted())
    {
        vote_of(r->get_term(), q->get_src(), "it answers a request");
        if (W.term < r->get_term() || (W.term == r->get_term() && W.vote != q->get_src()))
            FAIL(P(2), "a vote for %d in term %lu is given, persisted are term %lu and a vote for %d", q->get_src(), (unsigned long)r->get_term(), (unsigned long)W.term, W.vote);
    }
    rec(k, r);
}
// the answer to a request that was sent before
static bool find(int dst, int type, Msg& m)
{
    Quiet qu;
    for (auto& x : *rootmsgs)
        if (x.dst == dst && x.q->get_type() == type) { m = x; return true; }
    return false;
}
static void answer(int k, int dst, int qtype, int rtype, uint64_t term, bool ok, uint64_t next)
{
    Msg m;
    if (!find(dst, qtype, m)) return hx::fail("no request to answer");
    ptr<resp_msg> r = cs_new<resp_msg>((ulong)term, (msg_type)rtype, dst, 1);
    if (ok) r->accept(next);
    else r = cs_new<resp_msg>((ulong)term, (msg_type)rtype, dst, 1, (ulong)next);
    ptr<rpc_exception> e;
    m.h(r, e);
    rec(k, true);
}
// a result that may come later (the call was forwarded to the leader)
static void later(int k, ptr<async_result<bool>> r)
{
    bool now = false, ok = false;
    r->when_ready([&](bool& x, const ptr<std::exception>&) { now = true; ok = x; });
    if (!now) r->when_ready([](bool&, const ptr<std::exception>&) {});
    rec(k, ok);
    W.r[k].next = now;
}
static void hb(int k, int which)
{
    ptr<delayed_task> t;
    {
        Quiet qu;
        t = (*hb_tasks)[which];
    }
    t->execute();
    rec(k, true);
}
static void call(int k, int ev)
{
    // the terms and positions of the requests fit the state the calls begin in
    bool leads = (rootk >= 2 && rootk <= 5) || rootk == 7 || rootk == 9;
    uint64_t T = leads || rootk == 1 ? 2 : 1; // term of the server
    uint64_t L = rootk == 9 ? 5 : leads || rootk == 10 ? 4 : 3, LT = leads ? 2 : 1; // end of its log
    switch (ev)
    {
        case V2: req(k, cs_new<req_msg>((ulong)(T + 1), msg_type::vote_request, 2, 1, (ulong)LT, (ulong)L, (ulong)2)); break;
        case V3: req(k, cs_new<req_msg>((ulong)(T + 1), msg_type::vote_request, 3, 1, (ulong)LT, (ulong)L, (ulong)2)); break;
        case V3N: req(k, cs_new<req_msg>((ulong)(T + 2), msg_type::vote_request, 3, 1, (ulong)2, (ulong)L, (ulong)2)); break;
        case P3: req(k, cs_new<req_msg>((ulong)(T + 1), msg_type::prevote_request, 3, 1, (ulong)1, (ulong)3, (ulong)2)); break;
        case A2: req(k, rootk == 10 ? ap(2, T, 4, 1, 4, {T}) : ap(2, T, 3, 1, 3, {T})); break;
        case HBC: req(k, ap(2, T, 4, 1, 4, {})); break;
        case A2S: req(k, ap(2, T, 2, 1, 2, {1, T})); break;
        case A3N:
            req(k, ap(3, T + 1, L, LT, L, {T + 1, T + 1}));
            break;
        case SN: case SN5:
        {
            ptr<cluster_config> c = ev == SN ? mk_conf({1, 2, 3}, 1, 0) : mk_conf({1, 2, 3, 4}, 4, 1);
            ptr<snapshot> s = cs_new<snapshot>((ulong)(ev == SN ? 3 : 5), (ulong)1, c, (ulong)4);
            auto sr = cs_new<snapshot_sync_req>(s, (ulong)0, val(1), true);
            auto q = cs_new<req_msg>((ulong)T, msg_type::install_snapshot_request, 2, 1, (ulong)1, (ulong)3, (ulong)3);
            q->log_entries().push_back(cs_new<log_entry>((ulong)T, sr->serialize(), log_val_type::snp_sync_req));
            req(k, q);
            break;
        }
        case ET:
        {
            ptr<delayed_task> t;
            {
                Quiet qu;
                t = *el_task;
            }
            t->execute();
            rec(k, true);
            break;
        }
        case HB2: hb(k, 0); break;
        case HB3: hb(k, 1); break;
        case VR2: answer(k, 2, msg_type::vote_request, msg_type::vote_response, T, true, 4); break;
        case VR3: answer(k, 3, msg_type::vote_request, msg_type::vote_response, T, true, 4); break;
        case VR3N: answer(k, 3, msg_type::vote_request, msg_type::vote_response, T + 1, false, 0); break;
        case AR2: answer(k, 2, msg_type::append_entries_request, msg_type::append_entries_response, T, true, L + 1); break;
        case AR3: answer(k, 3, msg_type::append_entries_request, msg_type::append_entries_response, T, true, L + 1); break;
        case AR3N: answer(k, 3, msg_type::append_entries_request, msg_type::append_entries_response, T + 1, false, 4); break;
        case AR3D: answer(k, 3, msg_type::append_entries_request, msg_type::append_entries_response, T, false, 3); break;
        case E2:
        {
            Msg m;
            if (!find(2, msg_type::append_entries_request, m)) return hx::fail("no request to answer");
            ptr<resp_msg> r;
            ptr<rpc_exception> e = cs_new<rpc_exception>("connection lost", m.q);
            m.h(r, e);
            rec(k, true);
            break;
        }
        case CLI:
        {
            bufptr b = val(900 + k);
            ptr<void> ck;
            rec(k, W.rs->replicate_log(b, ck, 0));
            break;
        }
        case APP: case APF:
        {
            std::vector<bufptr> v;
            v.push_back(val(800 + k));
            if (ev == APF) v.push_back(val(850 + k));
            later(k, W.rs->append_entries(v));
            break;
        }
        case ADD: case ADD5:
        {
            srv_config c(ev == ADD ? 4 : 5, ev == ADD ? "s4" : "s5");
            later(k, W.rs->add_srv(c));
            break;
        }
        case RM: later(k, W.rs->remove_srv(3)); break;
        case JR4: answer(k, 4, msg_type::join_cluster_request, msg_type::join_cluster_response, T, true, 1); break;
        case SR4: answer(k, 4, msg_type::sync_log_request, msg_type::sync_log_response, T, true, 5); break;
        case ISL: rec(k, W.rs->is_leader()); break;
        case LV: req(k, cs_new<req_msg>((ulong)T, msg_type::leave_cluster_request, 2, 1, (ulong)0, (ulong)3, (ulong)2)); break;
        case LR3: answer(k, 3, msg_type::leave_cluster_request, msg_type::leave_cluster_response, T, true, 4); break;
        case SD:
        {
            bool r = true;
            ptr<std::exception> e;
            (*snap_done)(r, e);
            rec(k, true);
            break;
        }
        case PR2: answer(k, 2, msg_type::prevote_request, msg_type::prevote_response, T, true, 4); break;
        case PR3: answer(k, 3, msg_type::prevote_request, msg_type::prevote_response, T, true, 4); break;
    }
}
static bool timer_ev(int e);
static int slot_fiber[MAXE];
static void thr(void* a)
{
    int k = (int)(intptr_t)a;
    W.r[k].done = 2; // begun
    int e = (*combos)[chosen].ev[k];
    W.begun_ev |= 1ull << e;
    if (W.skip & 1 << k)
    {
        rec(k, timer_ev(e));
        if (!timer_ev(e)) W.r[k].next = 1;
    }
    else call(k, (*combos)[chosen].ev[k]);
}
// ---- the states the calls begin in
static void run_commit()
{
    for (int n = 0; n < 10000; n++)
    {
        bool any = false;
        for (int i = 0; i < rt::MAX_FIBERS; i++)
            if (hx::ThreadSys::live(i) && rt::enabled(i)) { rt::run(i); any = true; if (rt::fault()->kind != rt::FK_NONE) { hx::fail("%s", rt::fault()->what); rt::clear_fault(); } }
        if (!any) break;
    }
}
static const char* ROOTS[] = {"a follower", "a candidate", "a leader with an entry under way", "a leader that has appended the removal of a member", "a leader with a joining server that is getting the log", "a leader with an invited server and a member asked to leave", "a follower in a pre-vote round", "a leader with an entry under way that creates a snapshot when it is committed", "a follower that creates a snapshot when entries are committed", "a leader with an entry under way while a snapshot is created", "a follower with a membership change under way"};
static void base_entry(int k, uint64_t term, const bufptr& b, int type)
{
    W.e[k].term = term;
    W.e[k].type = type;
    W.e[k].len = (int)b->size();
    memcpy(W.e[k].d, b->data(), b->size());
    W.n = k + 1;
}
static void setup(int root)
{
    memset((void*)&W, 0, sizeof W);
    rootk = root;
    W.start = 1;
    W.conf_idx = 1;
    W.ann[2] = W.ann[3] = 1;
    W.vote = -1;
    hx::in_world([&] {
        {
            bufptr c = mk_conf({1, 2, 3}, 1, 0)->serialize();
            base_entry(0, 1, c, log_val_type::conf);
            bufptr v2 = val(102), v3 = val(103);
            base_entry(1, 1, v2, log_val_type::app_log);
            base_entry(2, 1, v3, log_val_type::app_log);
        }
        W.term = 1;
        W.vote = 2;
        W.voted[1] = 2;
        W.root = true;
        W.applied = 1;
        el_task = new ptr<delayed_task>();
        hb_tasks = new std::vector<ptr<delayed_task>>();
        msgs = new std::vector<Msg>();
        rootmsgs = new std::vector<Msg>();
        msgs->reserve(MAXMSG);
        ptr<state_mgr> m = cs_new<Mgr>();
        ptr<state_machine> sm = cs_new<SMach>();
        ptr<rpc_listener> nl;
        ptr<logger> lg = cs_new<Lg>();
        ptr<rpc_client_factory> f = cs_new<Fac>();
        ptr<delayed_task_scheduler> sc = cs_new<Sch>();
        ptr<raft_event_listener> ev = cs_new<Lst>();
        raft_params* p = new raft_params;
        p->with_election_timeout_lower(200).with_election_timeout_upper(400).with_hb_interval(100).with_max_append_size(50).with_rpc_failure_backoff(50);
        p->with_snapshot_enabled(root >= 7 ? 2 : 0).with_log_sync_stopping_gap(1);
        if (root == 6) p->with_prevote_enabled(true);
        W.rs = new raft_server(new context(m, sm, nl, lg, f, sc, ev, p));
        auto q = ap(2, 1, 3, 1, 2, {});
        W.rs->process_req(*q);
    }, "starting a server");
    run_commit();
    if (root == 10)
        hx::in_world([&] {
            auto q = ap(2, 1, 3, 1, 3, {});
            q->log_entries().push_back(cs_new<log_entry>((ulong)1, mk_conf({1, 2, 3, 4}, 4, 1)->serialize(), log_val_type::conf));
            W.rs->process_req(*q);
        }, "reaching the starting state");
    run_commit();
    hx::in_world([&] {
        auto keep = [&] { *rootmsgs = *msgs; msgs->clear(); };
        auto drop = [&] { msgs->clear(); };
        auto take = [&](int dst, int type) {
            for (size_t i = 0; i < msgs->size(); i++)
                if ((*msgs)[i].dst == dst && (*msgs)[i].q->get_type() == type)
                {
                    Msg m = (*msgs)[i];
                    msgs->erase(msgs->begin() + i);
                    return m;
                }
            hx::fail("the starting state is not reached (no message of type %d to %d)", type, dst);
            return Msg();
        };
        auto reply = [&](Msg m, int type, uint64_t next) {
            if (!m.q) return;
            ptr<resp_msg> r = cs_new<resp_msg>((ulong)W.term, (msg_type)type, m.dst, 1);
            r->accept(next);
            ptr<rpc_exception> e;
            m.h(r, e);
        };
        if (root == 0 || root == 8 || root == 10) { keep(); return; }
        if (root == 6)
        {
            (*el_task)->execute();
            keep();
            return;
        }
        (*el_task)->execute(); // candidate of term 2
        if (root == 1) { keep(); return; }
        reply(take(2, msg_type::vote_request), msg_type::vote_response, 4); // leader
        reply(take(2, msg_type::append_entries_request), msg_type::append_entries_response, 4);
        reply(take(3, msg_type::append_entries_request), msg_type::append_entries_response, 4);
        if (hb_tasks->size() != 2) hx::fail("the starting state is not reached (no heartbeat timers)");
        drop();
        if (root == 3)
        {
            W.rs->remove_srv(3);
            reply(take(3, msg_type::leave_cluster_request), msg_type::leave_cluster_response, 4);
            keep();
            return;
        }
        if (root == 4 || root == 5)
        {
            srv_config c(4, "s4");
            W.rs->add_srv(c);
            if (root == 4) reply(take(4, msg_type::join_cluster_request), msg_type::join_cluster_response, 1);
            else W.rs->remove_srv(3);
        }
        if (root == 9)
        {
            bufptr b = val(204);
            ptr<void> ck;
            W.rs->replicate_log(b, ck, 0);
            reply(take(2, msg_type::append_entries_request), msg_type::append_entries_response, 5);
            reply(take(3, msg_type::append_entries_request), msg_type::append_entries_response, 5);
        }
    }, "reaching the starting state");
    if (hx::failed()) return;
    run_commit();
    if (root == 9 && !snap_done) hx::fail("the starting state is not reached (no snapshot)");
    hx::in_world([&] {
        auto keep = [&] { *rootmsgs = *msgs; msgs->clear(); };
        if (root < 2 || root == 3 || root == 6 || root == 8 || root == 10) return;
        if (root == 9)
        { // the commit was announced
            std::vector<Msg> m = *msgs;
            msgs->clear();
            for (auto& x : m)
            {
                ptr<resp_msg> r = cs_new<resp_msg>((ulong)W.term, msg_type::append_entries_response, x.dst, 1);
                r->accept(5);
                ptr<rpc_exception> e;
                x.h(r, e);
            }
            msgs->clear();
        }
        bufptr b = val(204);
        ptr<void> ck;
        if (!W.rs->replicate_log(b, ck, 0)) hx::fail("the starting state is not reached (a leader declines an entry)");
        keep();
    }, "reaching the starting state");
    run_commit();
    W.root = false;
    W.term0 = W.term;
    W.commit0 = root == 9 ? 4 : 2;
}
// ---- results
const int NOUT = 1 << 13, NWK = 33; // one row per exploring process
struct Outs { int n[NWK]; uint64_t h[NWK][NOUT]; };
static Outs* outs;
static bool known(uint64_t h)
{
    for (int w = 0; w < NWK; w++)
        for (int i = 0; i < outs->n[w]; i++)
            if (outs->h[w][i] == h) return true;
    return false;
}
static void learn(uint64_t h)
{
    int w = *ex::worker % NWK;
    for (int i = 0; i < outs->n[w]; i++)
        if (outs->h[w][i] == h) return;
    if (outs->n[w] >= NOUT) rt::abort_check("too many results");
    outs->h[w][outs->n[w]++] = h;
}
static int count_known()
{
    std::vector<uint64_t> v;
    for (int w = 0; w < NWK; w++) v.insert(v.end(), outs->h[w], outs->h[w] + outs->n[w]);
    std::sort(v.begin(), v.end());
    return (int)(std::unique(v.begin(), v.end()) - v.begin());
}
static std::string shown()
{
    std::string s;
    char t[120];
    const Combo& c = (*combos)[chosen];
    for (int k = 0; k < c.n; k++)
    {
        snprintf(t, sizeof t, "%s: %s/%lu/%lu; ", EVN[c.ev[k]], W.r[k].ok ? "yes" : "no", (unsigned long)W.r[k].term, (unsigned long)W.r[k].next);
        s += t;
    }
    snprintf(t, sizeof t, "term %lu, vote %d, applied up to %lu, log from %lu of terms", (unsigned long)W.term, W.vote, (unsigned long)W.applied, (unsigned long)W.start);
    s += t;
    for (int i = 0; i < W.n; i++) s += " " + std::to_string(W.e[i].term);
    return s;
}
static bool lead;
static uint64_t result()
{
    hx::in_world([] { rt::TagScope ts(rt::TAG_HARNESS); lead = W.rs->is_leader(); }, "is_leader");
    uint64_t h = rt::hash_bytes(W.r, sizeof W.r, chosen + 1);
    h = rt::hash_bytes(W.e, sizeof W.e, h);
    h = rt::hash_bytes(W.conf, sizeof W.conf, h);
    h = rt::hash_bytes(W.pre_h, sizeof W.pre_h, h);
    uint64_t v[] = {W.term, (uint64_t)W.vote, W.start, (uint64_t)W.n, W.applied, W.app_h, W.snap_idx, lead};
    return rt::hash_bytes(v, sizeof v, h);
}
// a leader gets honest answers to what it has sent, and its heartbeat timers expire
static void drain()
{
    uint64_t last = 0;
    W.draining = true;
    for (int round = 0; round < 6 && !hx::failed(); round++)
    {
        hx::in_world([] {
            rt::TagScope ts(rt::TAG_HARNESS);
            std::vector<Msg> all;
            if (!rootmsgs->empty())
                for (auto& m : *rootmsgs) // what nobody has answered yet
                {
                    const Combo& c = (*combos)[chosen];
                    bool done = false;
                    for (int k = 0; k < c.n; k++)
                    {
                        int e = c.ev[k];
                        bool a2 = e == AR2 || e == E2, a3 = e == AR3 || e == AR3N || e == AR3D;
                        if (m.q->get_type() == msg_type::append_entries_request && ((m.dst == 2 && a2) || (m.dst == 3 && a3))) done = true;
                    }
                    if (!done) all.push_back(m);
                }
            rootmsgs->clear();
            for (auto& m : *msgs) all.push_back(m);
            msgs->clear();
            for (auto& m : all)
                if (m.q->get_type() == msg_type::append_entries_request && m.q->get_term() == W.term)
                {
                    ptr<resp_msg> r = cs_new<resp_msg>((ulong)W.term, msg_type::append_entries_response, m.dst, 1);
                    r->accept(m.q->get_last_log_idx() + m.q->log_entries().size() + 1);
                    ptr<rpc_exception> e;
                    m.h(r, e);
                }
            for (size_t i = 0; i < hb_tasks->size(); i++) (*hb_tasks)[i]->execute();
        }, "answering");
        bool pts = *rt::points_on;
        *rt::points_on = false;
        run_commit();
        *rt::points_on = pts;
    }
    if (hx::failed()) return;
    for (int i = 0; i < W.n; i++)
        if (W.e[i].type == log_val_type::app_log) last = W.start + i;
    bool still = false;
    hx::in_world([&] { rt::TagScope ts(rt::TAG_HARNESS); lead = W.rs->is_leader(); }, "is_leader");
    still = lead;
    if (still && W.n && W.e[W.n - 1].term == W.term && W.applied < last)
        FAIL(P(15), "the leader has everything acknowledged, but entry %lu is never applied (applied up to %lu)", (unsigned long)last, (unsigned long)W.applied);
    if (still)
    {
        // the followers have been sent everything
        for (auto& m : *msgs)
            if (m.q->get_type() == msg_type::append_entries_request && m.q->get_last_log_idx() + m.q->log_entries().size() + 1 < W.start + W.n)
                FAIL(0, "server %d never gets the entries behind %lu", m.dst, (unsigned long)(m.q->get_last_log_idx() + m.q->log_entries().size()));
        if (msgs->empty() && hb_tasks->size()) FAIL(0, "the leader does not send heartbeats any more");
    }
}
static void finish()
{
    if (chosen < 0) return;
    const Combo& c = (*combos)[chosen];
    for (int k = 0; k < c.n; k++)
        if (W.r[k].done != 1) return FAIL(0, "%s never returns: %s", EVN[c.ev[k]], hx::stuck().c_str());
    for (int k = 0; k < c.n; k++)
    {
        int e = c.ev[k];
        if (e != CLI && e != APP && e != APF) continue;
        int w = e == CLI ? 0 : 1, want = W.r[k].ok;
        if (W.put[w][k] != want || (e == APF && W.put[2][k] != want))
            return FAIL(P(13), "%s reports %s, the entry was appended %d times", EVN[e], want ? "success" : "a failure", W.put[w][k]);
        if (e == APF && want && W.put_at[2][k] != W.put_at[1][k] + 1) return FAIL(P(13), "the values of one call are not next to each other in the log");
    }
    uint64_t h = result();
    if (hx::failed()) return;
    if (seqmode) learn(h);
    else
    {
        hx::cov("results compared");
        if (!known(h)) return FAIL(0, "no order of the calls one after the other gives this result: %s", shown().c_str());
    }
    drain();
}
static bool timer_ev(int e) { return e == ET || e == HB2 || e == HB3; }
// may have no effect: a timer event whose timer is cancelled by a call at the same time, a client call that is refused
// because the leader changes while it is running
static bool may_skip(const Combo& c, int k)
{
    if (timer_ev(c.ev[k])) return true;
    int e = c.ev[k];
    if (e != APP && e != APF && e != ADD && e != ADD5 && e != RM) return false;
    for (int j = 0; j < c.n; j++)
        switch (c.ev[j])
        {
            case V2: case V3: case V3N: case A2: case A2S: case A3N: case AR3N: case VR2: case VR3: case VR3N: case ET: case SN: case SN5: return true;
            default: break;
        }
    return false;
}
struct Sys : hx::ThreadSys
{
    bool is_call(int f, int& k)
    {
        for (k = 0; k < (*combos)[chosen].n; k++)
            if (slot_fiber[k] == f) return true;
        return false;
    }
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (chosen < 0)
        {
            for (size_t i = 0; i < combos->size(); i++)
            {
                ex::Choice c;
                c.t = 9; c.a = i & 255; c.b = i >> 8;
                out.push_back(c);
                if (seqmode)
                    for (int m = 1; m < 1 << (*combos)[i].n; m++)
                    {
                        bool ok = true;
                        for (int k = 0; k < (*combos)[i].n; k++)
                            if (m & 1 << k && !may_skip((*combos)[i], k)) ok = false;
                        c.c = m;
                        if (ok) out.push_back(c);
                    }
            }
            return;
        }
        ThreadSys::enabled(out);
        if (!seqmode) return;
        int busy = -1;
        for (int k = 0; k < (*combos)[chosen].n; k++)
            if (W.r[k].done == 2) busy = k;
        if (busy < 0) return;
        size_t n = 0;
        for (auto& c : out)
        {
            int k;
            if (c.t == hx::T_RUN && is_call(c.a, k) && k != busy) continue;
            out[n++] = c;
        }
        out.resize(n);
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::apply(c);
        chosen = c.a | c.b << 8;
        W.skip = c.c;
        bad_mask = P(10); // what is not one of the harness' own checks
        hx::threads_reset();
        for (int k = 0; k < (*combos)[chosen].n; k++) slot_fiber[k] = rt::spawn(thr, (void*)(intptr_t)k, 1);
    }
    const char* violation() override
    {
        const char* v = hx::failed();
        return v && (prop_run == 24 || (bad_mask >> prop_run & 1)) ? v : nullptr;
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t == 9)
        {
            const Combo& x = (*combos)[c.a | c.b << 8];
            std::string s = "[";
            for (int k = 0; k < x.n; k++) s += std::string(k ? " || " : "") + EVN[x.ev[k]];
            return s + "]";
        }
        int k;
        if (chosen >= 0 && c.t == hx::T_RUN) return is_call(c.a, k) ? "c" + std::to_string(k + 1) : "commit";
        return ThreadSys::text(c);
    }
};
static const std::vector<int> EVS[] = {
    {V2, V3, V3N, P3, A2, A2S, A3N, SN, ET, APP, CLI, ISL, LV},
    {VR2, VR3, VR3N, V3, V3N, A2, A3N, ET, APP, CLI, ISL},
    {AR2, AR3, AR3N, AR3D, E2, CLI, APP, APF, HB2, HB3, ADD, RM, V3, V3N, A3N, ET, ISL},
    {AR2, AR3, AR3N, CLI, APP, HB2, HB3, ADD, RM, V3, A3N, ET, ISL},
    {SR4, AR2, AR3N, CLI, HB2, RM, ADD5, V3, A3N},
    {JR4, LR3, AR2, AR3N, CLI, RM, ADD5, V3, A3N},
    {PR2, PR3, P3, V3, A2, A3N, ET, APP},
    {AR2, AR3, AR3D, CLI, APP, HB2, HB3, V3, A3N, ADD},
    {A2, A2S, A3N, SN, V3, ET},
    {SD, AR2, AR3, AR3D, CLI, HB2, A3N, V3, RM},
    {HBC, SN5, A2, A3N, V3, ET, APP},
};
static bool twice(int e) { return e == CLI || e == APP || e == A2 || e == V3 || e == ADD || e == RM; }
static bool make(const std::string& scen, int prop, bool thorough, hx::Setup& out)
{
    int root = -1;
    char mode[8] = "";
    if (sscanf(scen.c_str(), "conc%d-%7s", &root, mode) < 2 || root < 0 || root > 10) return false;
    bool three = strchr(mode, '3');
    fine = strchr(mode, '+');
    out.opt.table_bits = 26;
    out.opt.seconds = thorough ? 700 : 120;
    out.opt.max_depth = 1000;
    static std::vector<Combo> cs;
    cs.clear();
    rootk = root;
    auto& e = EVS[root];
    for (size_t a = 0; a < e.size(); a++)
        for (size_t b = a; b < e.size(); b++)
        {
            if (a == b && !twice(e[a])) continue;
            if (!three)
            {
                Combo x = {2, {e[a], e[b], 0}};
                if (!impossible(x)) cs.push_back(x);
            }
            else
                for (size_t c = b; c < e.size(); c++)
                {
                    if (b == c && (!twice(e[b]) || a == b)) continue;
                    Combo x = {3, {e[a], e[b], e[c]}};
                    if (!impossible(x)) cs.push_back(x);
                }
        }
    combos = &cs;
    prop_run = prop;
    chosen = -1;
    outs = (Outs*)rt::host_map(sizeof(Outs), true);
    setup(root);
    if (hx::failed()) return true;
    auto* t = new Sys;
    t->finish = finish;
    t->regions = {{&W, sizeof W}, {&chosen, sizeof chosen}, {&bad_mask, sizeof bad_mask}};
    out.sys.reset(t);
    *rt::points_on = true;
    if (fine)
    {
        rt::watch_live();
        *rt::watch_on = true;
    }
    int pre = (three || fine ? 2 : 3) + thorough - (three && !fine && (root == 2 || root == 3 || root == 7)); // the large ones
    out.opt.budget[1] = pre;
    // the calls one after the other, in every order and with the committing thread anywhere in between
    seqmode = true;
    ex::Opt so = out.opt;
    so.seconds = 600;
    ex::Result r = ex::explore(*out.sys, so);
    seqmode = false;
    if (r.viol && getenv("VERIF_VERBOSE"))
    {
        for (auto& c : r.path) fprintf(stderr, "%s ", (chosen = c.t == 9 ? c.a | c.b << 8 : chosen, out.sys->text(c)).c_str());
        chosen = -1;
    }
    if (r.viol) FAIL(P(prop_run), "one after the other: %s", r.text.c_str());
    else if (!r.exhaustive) rt::abort_check("the sequential executions were not covered");
    if (getenv("VERIF_VERBOSE")) fprintf(stderr, "sequential: %lu executions, %d results, %.1f s\n", (unsigned long)r.ends, count_known(), r.wall);
    out.bounds = std::string(ROOTS[root]) + ": " + std::to_string(cs.size()) + (three ? " triples" : " pairs") + " of calls at the same time, all schedules with up to " + std::to_string(pre) + " preemptions at locks, conditions and calls of the log store, state machine, state manager and RPC client" + (fine ? " and every access to memory that the server shares between calls" : "") + ", compared with " + std::to_string(count_known()) + " results of sequential executions";
    return true;
}
int main(int argc, char** argv)
{
    std::vector<std::string> names;
    for (int k = 0; k < 11; k++)
        for (const char* m : {"2", "3", "2+", "3+"}) names.push_back("conc" + std::to_string(k) + "-" + m);
    return hx::main(argc, argv, "conc", names, make);
}
