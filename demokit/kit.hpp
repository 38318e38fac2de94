// A small hand-driven cluster: in-memory log, state, transport and timers around real raft_server objects.
// Nothing happens unless the demonstration asks for it (the committing threads are real threads).
#pragma once
#include "cornerstone.hxx"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace cornerstone;

struct Rec { ulong term; log_val_type type; std::string d; };
static inline std::string bytes(buffer& b) { return std::string((const char*)b.data() - b.pos(), b.size()); }
static inline bufptr mkbuf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    if (!s.empty()) memcpy(b->data(), s.data(), s.size());
    return b;
}
static inline ptr<log_entry> mkent(ulong term, const std::string& s, log_val_type t = log_val_type::app_log)
{
    return cs_new<log_entry>(term, mkbuf(s), t);
}
struct Disk // survives a crash
{
    std::recursive_mutex m;
    ulong start = 1;
    std::vector<ptr<log_entry>> log;
    ulong term = 0;
    int voted = -1;
    bool has_state = false;
    bufptr conf = buffer::alloc(0);
    bool has_conf = false;
    bufptr snp = buffer::alloc(0);
    bool has_snp = false;
    std::string snp_data, snp_in;
    ulong applied = 0;
    std::map<ulong, std::string> app;
    std::vector<std::string> calls; // state machine callbacks in order
    int exits = 0;
    std::function<void()> on_next; // called when the next index of the log is read
};
#define DL(d) std::lock_guard<std::recursive_mutex> dl_((d).m)
struct MemLog : log_store
{
    Disk& d;
    explicit MemLog(Disk& x) : d(x) {}
    ulong next_slot() const override { auto h = d.on_next; if (h) h(); DL(d); return d.start + d.log.size(); }
    ulong start_index() const override { DL(d); return d.start; }
    ptr<log_entry> last_entry() const override { DL(d); return d.log.empty() ? mkent(0, "") : d.log.back(); }
    ulong append(ptr<log_entry>& e) override { DL(d); d.log.push_back(e); return d.start + d.log.size() - 1; }
    void write_at(ulong i, ptr<log_entry>& e) override
    {
        DL(d);
        if (i < d.start || i > d.start + d.log.size()) throw std::range_error("write_at");
        d.log.resize(i - d.start);
        d.log.push_back(e);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) override
    {
        DL(d);
        if (s < d.start) throw std::range_error("log_entries");
        auto v = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = s; i < e && i < d.start + d.log.size(); i++) v->push_back(d.log[i - d.start]);
        return v;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        DL(d);
        if (i < d.start) throw std::range_error("entry_at");
        return i < d.start + d.log.size() ? d.log[i - d.start] : ptr<log_entry>();
    }
    ulong term_at(ulong i) override
    {
        DL(d);
        if (i < d.start) throw std::range_error("term_at");
        return i < d.start + d.log.size() ? d.log[i - d.start]->get_term() : 0;
    }
    bufptr pack(ulong i, int32 n) override
    {
        DL(d);
        std::string s;
        for (ulong k = i; k < i + n && k < d.start + d.log.size(); k++)
        {
            auto& e = d.log[k - d.start];
            e->get_buf().pos(0);
            std::string b = bytes(e->get_buf());
            uint64_t t = e->get_term(), l = b.size();
            s.append((char*)&t, 8);
            s.push_back((char)e->get_val_type());
            s.append((char*)&l, 8);
            s += b;
        }
        return mkbuf(s);
    }
    void apply_pack(ulong i, buffer& p) override
    {
        DL(d);
        p.pos(0);
        std::string s = bytes(p);
        size_t o = 0;
        while (o < s.size())
        {
            uint64_t t, l;
            memcpy(&t, &s[o], 8);
            char ty = s[o + 8];
            memcpy(&l, &s[o + 9], 8);
            auto e = mkent(t, s.substr(o + 17, l), (log_val_type)ty);
            write_at(i++, e);
            o += 17 + l;
        }
    }
    bool compact(ulong last) override
    {
        DL(d);
        ulong n = last + 1 - d.start;
        if (n >= d.log.size()) d.log.clear();
        else d.log.erase(d.log.begin(), d.log.begin() + n);
        d.start = last + 1;
        return true;
    }
};
struct MemSm : state_machine
{
    Disk& d;
    explicit MemSm(Disk& x) : d(x) {}
    static std::string tag(const char* w, ulong i, buffer& b) { b.pos(0); std::string r = w + std::to_string(i) + "=" + bytes(b); b.pos(0); return r; }
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        DL(d);
        d.calls.push_back(tag("commit ", i, b));
        b.pos(0);
        d.app[i] = bytes(b);
        d.applied = i;
    }
    void pre_commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override { DL(d); d.calls.push_back(tag("pre ", i, b)); }
    void rollback(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override { DL(d); d.calls.push_back(tag("back ", i, b)); }
    void save_snapshot_data(snapshot&, const ulong off, buffer& b) override
    {
        DL(d);
        if (off == 0) d.snp_in.clear();
        std::string s((const char*)b.data(), b.size() - b.pos());
        if (d.snp_in.size() < off + s.size()) d.snp_in.resize(off + s.size());
        d.snp_in.replace(off, s.size(), s);
        d.calls.push_back("save " + std::to_string(off) + "+" + std::to_string(s.size()));
    }
    static std::string image(Disk& d)
    {
        std::string s;
        for (auto p = d.app.rbegin(); p != d.app.rend(); ++p) s += std::to_string(p->first) + ":" + p->second + ";"; // newest first
        return s;
    }
    bool apply_snapshot(snapshot& s) override
    {
        DL(d);
        d.calls.push_back("install " + std::to_string(s.get_last_log_idx()));
        d.app.clear();
        d.snp_data = d.snp_in;
        std::string x = d.snp_in;
        size_t o = 0;
        while (o < x.size())
        {
            size_t c = x.find(':', o), e = x.find(';', o);
            if (c == std::string::npos || e == std::string::npos) break;
            d.app[std::stoull(x.substr(o, c - o))] = x.substr(c + 1, e - c - 1);
            o = e + 1;
        }
        d.snp = s.serialize();
        d.has_snp = true;
        d.applied = s.get_last_log_idx();
        return true;
    }
    int read_snapshot_data(snapshot&, const ulong off, buffer& b) override
    {
        DL(d);
        size_t n = std::min(b.size() - b.pos(), (size_t)(d.snp_data.size() - off));
        memcpy(b.data(), d.snp_data.data() + off, n);
        return (int)n;
    }
    ptr<snapshot> last_snapshot() override
    {
        DL(d);
        if (!d.has_snp) return ptr<snapshot>();
        d.snp->pos(0);
        return snapshot::deserialize(*d.snp);
    }
    ulong last_commit_index() override { DL(d); return d.applied; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        {
            DL(d);
            d.snp_data = image(d);
            snapshot t(s.get_last_log_idx(), s.get_last_log_term(), s.get_last_config(), d.snp_data.size());
            d.snp = t.serialize();
            d.has_snp = true;
            d.calls.push_back("snapshot " + std::to_string(s.get_last_log_idx()));
        }
        bool ok = true;
        ptr<std::exception> e;
        done(ok, e);
    }
};
struct Task { ptr<delayed_task> t; int ms; };
struct Out { int from, to; ptr<req_msg> req; rpc_handler done; };
struct Kit;
struct Node
{
    int id = 0;
    Disk disk;
    ptr<raft_server> srv;
    std::vector<Task> timers;
    bool up = false;
};
struct Kit
{
    std::recursive_mutex m;
    std::map<int, Node> n;
    std::deque<Out> q; // requests on their way
    int members = 3;
    std::function<void(raft_params&)> tune;
    bool verbose = getenv("KIT_LOG") != nullptr;

    void boot(int id);
    void crash(int id) // the process is gone (its threads are left behind, blocked on nothing we use)
    {
        std::lock_guard<std::recursive_mutex> g(m);
        for (size_t i = 0; i < q.size();)
            if (q[i].from == id) q.erase(q.begin() + i);
            else i++;
        n[id].timers.clear();
        n[id].up = false;
        n[id].srv.reset();
    }
    // let the election timer of a server expire
    void timeout(int id)
    {
        auto& t = n[id].timers;
        for (size_t i = 0; i < t.size(); i++)
            if (t[i].ms >= 100)
            {
                ptr<delayed_task> x = t[i].t;
                t.erase(t.begin() + i);
                x->execute();
                return;
            }
        printf("no election timer on %d\n", id);
    }
    void heartbeats(int id)
    {
        auto t = n[id].timers;
        n[id].timers.clear();
        for (auto& x : t)
            if (x.ms >= 100) n[id].timers.push_back(x);
        for (auto& x : t)
            if (x.ms < 100) x.t->execute();
    }
    int find(int from, int to)
    {
        for (size_t i = 0; i < q.size(); i++)
            if (q[i].from == from && q[i].to == to) return (int)i;
        return -1;
    }
    ptr<resp_msg> call(int to, req_msg& r) { return n[to].srv->process_req(r); }
    // one request and its response; false: there is none
    bool deliver(int from, int to)
    {
        int i = find(from, to);
        if (i < 0) return false;
        Out o = q[i];
        q.erase(q.begin() + i);
        if (!n[to].up) { fail(o); return true; }
        auto c = copy(*o.req);
        ptr<resp_msg> rsp = n[to].srv->process_req(*c);
        ptr<rpc_exception> none;
        if (!rsp) { fail(o); return true; }
        if (n[from].up) o.done(rsp, none);
        return true;
    }
    bool lose(int from, int to)
    {
        int i = find(from, to);
        if (i < 0) return false;
        Out o = q[i];
        q.erase(q.begin() + i);
        fail(o);
        return true;
    }
    // deliver everything between these servers until nothing is left; everything else fails
    void settle(std::vector<int> side, int rounds = 200)
    {
        while (!q.empty() && rounds-- > 0)
        {
            Out o = q.front();
            bool a = false, b = false;
            for (int s : side) { if (s == o.from) a = true; if (s == o.to) b = true; }
            if (a && b) deliver(o.from, o.to);
            else if (a || b) lose(o.from, o.to);
            else { q.pop_front(); q.push_back(o); }
        }
    }
    void fail(Out& o)
    {
        ptr<resp_msg> r;
        ptr<rpc_exception> e = cs_new<rpc_exception>("lost", o.req);
        if (n[o.from].up) o.done(r, e);
    }
    static ptr<req_msg> copy(req_msg& r)
    {
        auto c = cs_new<req_msg>(r.get_term(), r.get_type(), r.get_src(), r.get_dst(), r.get_last_log_term(), r.get_last_log_idx(), r.get_commit_idx());
        for (auto& e : r.log_entries())
        {
            e->get_buf().pos(0);
            c->log_entries().push_back(mkent(e->get_term(), bytes(e->get_buf()), e->get_val_type()));
        }
        return c;
    }
    ptr<resp_msg> client(int id, const std::string& s)
    {
        req_msg r(0, msg_type::client_request, 0, id, 0, 0, 0);
        r.log_entries().push_back(mkent(0, s));
        return n[id].srv->process_req(r);
    }
    std::string at(int id, ulong i)
    {
        DL(n[id].disk);
        Disk& d = n[id].disk;
        if (i < d.start || i >= d.start + d.log.size()) return "-";
        auto& e = d.log[i - d.start];
        if (e->get_val_type() == log_val_type::conf) return "conf@" + std::to_string(e->get_term());
        e->get_buf().pos(0);
        return bytes(e->get_buf()) + "@" + std::to_string(e->get_term());
    }
    std::string applied(int id, ulong i)
    {
        DL(n[id].disk);
        auto it = n[id].disk.app.find(i);
        return it == n[id].disk.app.end() ? "-" : it->second;
    }
    std::vector<std::string> calls(int id) { DL(n[id].disk); return n[id].disk.calls; }
    // wait until the committing threads have done what they can
    static void rest(int ms = 150) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
    template <class F> static bool within(int ms, F f)
    {
        for (int i = 0; i < ms / 5; i++)
        {
            if (f()) return true;
            rest(5);
        }
        return f();
    }
};
struct KitClient : rpc_client
{
    Kit& k;
    int from, to;
    KitClient(Kit& a, int f, int t) : k(a), from(f), to(t) {}
    void send(ptr<req_msg>& r, rpc_handler& h) override
    {
        std::lock_guard<std::recursive_mutex> g(k.m);
        k.q.push_back(Out{from, to, r, h});
    }
};
struct KitFactory : rpc_client_factory
{
    Kit& k;
    int from;
    KitFactory(Kit& a, int f) : k(a), from(f) {}
    ptr<rpc_client> create_client(const std::string& e) override { return cs_new<KitClient>(k, from, atoi(e.c_str())); }
};
struct KitSched : delayed_task_scheduler
{
    Kit& k;
    int id;
    KitSched(Kit& a, int i) : k(a), id(i) {}
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        std::lock_guard<std::recursive_mutex> g(k.m);
        t->reset();
        k.n[id].timers.push_back(Task{t, ms});
    }
    void cancel_impl(ptr<delayed_task>& t) override
    {
        std::lock_guard<std::recursive_mutex> g(k.m);
        auto& v = k.n[id].timers;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].t == t) { v.erase(v.begin() + i); return; }
    }
};
struct KitMgr : state_mgr
{
    Kit& k;
    int id;
    KitMgr(Kit& a, int i) : k(a), id(i) {}
    ptr<cluster_config> load_config() override
    {
        Disk& d = k.n[id].disk;
        if (d.has_conf) { d.conf->pos(0); return cluster_config::deserialize(*d.conf); }
        auto c = cs_new<cluster_config>();
        for (int i = 1; i <= k.members; i++) c->get_servers().push_back(cs_new<srv_config>(i, std::to_string(i)));
        if (id > k.members) { c->get_servers().clear(); c->get_servers().push_back(cs_new<srv_config>(id, std::to_string(id))); }
        return c;
    }
    void save_config(const cluster_config& c) override { Disk& d = k.n[id].disk; DL(d); d.conf = const_cast<cluster_config&>(c).serialize(); d.has_conf = true; }
    void save_state(const srv_state& s) override { Disk& d = k.n[id].disk; DL(d); d.term = s.get_term(); d.voted = s.get_voted_for(); d.has_state = true; }
    ptr<srv_state> read_state() override
    {
        Disk& d = k.n[id].disk;
        if (!d.has_state) return ptr<srv_state>();
        auto s = cs_new<srv_state>();
        s->set_term(d.term);
        s->set_voted_for(d.voted);
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<MemLog>(k.n[id].disk); }
    int32 server_id() override { return id; }
    void system_exit(const int code) override { DL(k.n[id].disk); k.n[id].disk.exits++; printf("server %d exits with %d\n", id, code); }
};
struct KitLogger : logger
{
    int id;
    bool v;
    KitLogger(int i, bool b) : id(i), v(b) {}
    void w(const std::string& s) { if (v) fprintf(stderr, "[%d] %s\n", id, s.c_str()); }
    void debug(const std::string& s) override { w(s); }
    void info(const std::string& s) override { w(s); }
    void warn(const std::string& s) override { w(s); }
    void err(const std::string& s) override { w(s); }
};
struct KitListener : rpc_listener
{
    void listen(ptr<msg_handler>&) override {}
    void stop() override {}
};
inline void Kit::boot(int id)
{
    Node& x = n[id];
    x.id = id;
    x.up = true;
    ptr<state_mgr> mgr = cs_new<KitMgr>(*this, id);
    ptr<state_machine> sm = cs_new<MemSm>(x.disk);
    ptr<rpc_listener> l = cs_new<KitListener>();
    ptr<logger> lg = cs_new<KitLogger>(id, verbose);
    ptr<rpc_client_factory> f = cs_new<KitFactory>(*this, id);
    ptr<delayed_task_scheduler> s = cs_new<KitSched>(*this, id);
    ptr<raft_event_listener> ev;
    raft_params* p = new raft_params;
    p->with_election_timeout_lower(100).with_election_timeout_upper(200).with_hb_interval(20).with_rpc_failure_backoff(5);
    if (tune) tune(*p);
    x.srv = cs_new<raft_server>(new context(mgr, sm, l, lg, f, s, ev, p));
}
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
static inline void done_ok() { printf("ok\n"); fflush(stdout); _exit(0); }
