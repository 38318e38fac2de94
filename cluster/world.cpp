#include "world.hpp"
#include "../rt/explore.hpp"
#include "cornerstone.hxx"
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>

using namespace cornerstone;
using rt::TagScope;

namespace world
{
static uint64_t H(const void* p, size_t n, uint64_t s) { return rt::hash_bytes(p, n, s); }

// ------------------------------------------------------------------------------------------- world data
struct LE
{
    ulong term;
    int type;
    std::string data;
    uint64_t h() const { return H(data.data(), data.size(), 7 + type) | 1; }
};
struct Snap
{
    ulong idx = 0, term = 0;
    std::string conf, data;
};
struct Persist
{
    bool has_state = false;
    ulong term = 0;
    int vote = -1;
    std::string conf; // serialised
    ulong conf_idx = 0;
    uint32_t conf_mask = 0;
    ulong start = 1;
    std::vector<LE> log;
    std::vector<uint64_t> chain; // chain[i] for log[i]
    uint64_t base_chain = 1;     // chain value of entry start-1; 0 = unknown
    // state machine
    ulong sm_last = 0;
    std::map<ulong, std::string> sm;
    std::vector<Snap> snaps; // ascending
    Snap in;                 // snapshot being received
    std::vector<bool> in_have;
    ulong next() const { return start + log.size(); }
};
struct Timer
{
    ptr<delayed_task> task;
    int64_t deadline;
    int delay;
    bool hb;
    uint32_t seq;
};
struct MsgEnt { ulong term; int type; std::string data; };
struct Rpc
{
    int src = 0, dst = 0;
    uint32_t src_inc = 0;
    int type = 0;
    ulong term = 0, lterm = 0, lidx = 0, commit = 0;
    int msrc = 0, mdst = 0;
    std::vector<std::string> ents; // serialised log entries
    ptr<req_msg> req;
    rpc_handler* handler = nullptr; // allocated as SUT memory
    int phase = 0;                  // 0 request in flight, 1 response in flight
    bool held = false;
    bool orphan = false; // sender is gone
    // response
    bool has_resp = false;
    int rtype = 0, rsrc = 0, rdst = 0;
    ulong rterm = 0, rnext = 0;
    bool racc = false;
    int64_t t = 0;
    uint32_t seq = 0;
};
struct Pend // asynchronous snapshot
{
    Snap s;
    async_result<bool>::handler_type* done = nullptr;
};
struct Srv
{
    int id = 0;
    bool up = false, exited = false, removed = false, joining = false, ever_member = false, expect_exit = false;
    bool gone = false; // crashed before it became a member: not started again
    uint32_t inc = 0;
    raft_server* rs = nullptr;
    Persist P;
    std::vector<Timer> timers;
    std::vector<Pend> pend;
    bool lead = false;
    ulong lead_term = 0;
    uint32_t granted = 0;   // voters whose grant was delivered for grant_term
    ulong grant_term = 0;
    uint64_t pre[MAXI] = {};  // announced entries: hash, 1 = exempt
    bool done[MAXI] = {};     // committed (applied) indices in this life
    ulong applied = 0;        // position of the apply sequence
    bool lost_contact = false;
    uint32_t pv_ok = 0;       // pre-vote agreement delivered in this round
    bool pv_round = false;
    int known = 0, heard = 0; // the leader that was followed last, that was heard last
    ulong cm = 0;             // applied in this event
    int64_t last_resp[MAXS + 1] = {};
    bool ever_resp[MAXS + 1] = {};
    uint32_t sent_vote_to = 0; // vote requests sent in this event
    int nconf_req = 0;
};
struct CliOp
{
    int srv = 0, kind = 0;  // 0 append, 1 add, 2 rm
    int completions = 0;
    bool result = false, err = false, forwarded = false, done_ret = false;
    bool expected_known = false, expected = false; // verdict of the leader (forwarded)
};
struct Committed { ulong term = 0; int type = 0; uint64_t h = 0; ulong cterm = 0; };
struct World
{
    Srv s[MAXS + 1];
    std::vector<Rpc*> rpcs;
    uint32_t part = 0;
    bool parted = false;
    uint32_t nclient = 0;
    uint32_t seq = 0;
    int drain = 0;
    int curp = 0; // server whose code is running
    // ghosts
    int8_t leader_of[MAXT] = {};
    int8_t vote_of[MAXT][MAXS + 1] = {};
    Committed com[MAXI];     // entries that are committed by the protocol's own rule, seen from outside
    uint8_t match_of[MAXT][MAXS + 1] = {}; // [leader term][server]: highest index the server acknowledged in that term
    ulong legit = 0;         // highest committed index
    uint64_t chain_of[MAXI][MAXT] = {};
    uint64_t conf_at[MAXI] = {};
    uint32_t added_req = 0, removed_req = 0;
    std::map<ulong, std::string> snap_content; // index -> content
    std::vector<CliOp*> ops;
    CliOp* curop = nullptr;
    // crash injection
    int crash_srv = 0, crash_k = 0, persist_n = 0;
    bool crashed_now = false;
    // violations
    int nviol = 0;
    int vprop = 0;
    char vtext[400];
    uint32_t rnd = 0;
    bool stab = false;
    bool resp_sent = false;
    int finding = 0; // a history listed as known finding began: not followed any further
};
static World* W;      // arena
bool follow_findings = false; // host: do not stop at known findings (to reproduce them)
static Cfg* C;        // host
static uint64_t MASK; // set once
static uint64_t* COV; // host counters
enum { CV_LEADER, CV_COMMIT, CV_ROLLBACK, CV_OVERWRITE, CV_SNAPINST, CV_SNAPBLK, CV_CONF, CV_EXIT, CV_RESTART, CV_PERSCRASH, CV_PREVOTE, CV_STEP, CV_REJECT, CV_LATE, CV_SNAPCREATE, CV_DRAINLIM, CV_STAB, CV_LEASE_NO, CV_FWD, CV_REMOVED, CV_N };
static const char* COVN[] = {"leader_elections", "entries_applied", "rollbacks", "log_overwrites", "snapshots_installed", "snapshot_blocks", "config_entries", "self_exits", "restarts", "crashes_at_persistence_calls", "prevote_answers", "timer_fires", "rejected_appends", "late_or_lost_messages", "snapshots_created", "drain_limit_hits", "stabilisations", "lease_denials", "forwarded_calls", "servers_removed"};
static void cov(int k) { COV[*ex::worker * 64 + k]++; }
uint64_t cov_count(int k)
{
    uint64_t n = 0;
    for (int w = 0; w < 64; w++) n += COV[w * 64 + k];
    return n;
}
const char* cov_name(int k) { return COVN[k]; }
int cov_n() { return CV_N; }

static void violate(int prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void violate(int prop, const char* fmt, ...)
{
    if (!(MASK >> prop & 1) || W->finding) return;
    W->nviol++;
    if (W->nviol > 1) return;
    W->vprop = prop;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(W->vtext, sizeof W->vtext, fmt, ap);
    va_end(ap);
}
const char* violation(int* p)
{
    if (!W->nviol) return nullptr;
    *p = W->vprop;
    return W->vtext;
}
void clear_violations() { W->nviol = 0; }
const Cfg& cfg() { return *C; }
static int popc(uint32_t x) { return __builtin_popcount(x); }

struct CrashNow {};

// a persistence call of server s is about to take effect
static void persist_point(int s)
{
    W->persist_n++;
    if (W->crash_srv == s && W->crash_k && W->persist_n == W->crash_k)
    {
        W->crashed_now = true;
        rt::abandon();
    }
}

// ------------------------------------------------------------------------------------------- log store
static bool log_has(const Persist& P, ulong i) { return i >= P.start && i < P.next(); }
static const LE& log_at(const Persist& P, ulong i) { return P.log[i - P.start]; }
static uint64_t chain_at(const Persist& P, ulong i)
{
    if (i == 0) return 1;
    if (i + 1 == P.start) return P.base_chain;
    if (log_has(P, i)) return P.chain[i - P.start];
    return 0;
}
static uint64_t mk_chain(uint64_t prev, const LE& e)
{
    if (!prev) return 0;
    return H(e.data.data(), e.data.size(), prev * 31 + e.term * 1000003 + e.type) | 2;
}
static void note_entry(int s, ulong i)
{
    Persist& P = W->s[s].P;
    const LE& e = log_at(P, i);
    if (i >= MAXI || e.term >= MAXT) return;
    uint64_t c = chain_at(P, i);
    if (!c) return;
    uint64_t& g = W->chain_of[i][e.term];
    if (!g) g = c;
    else if (g != c) violate(3, "server %d holds an entry (index %lu term %lu) that differs, in itself or in what precedes it, from the same entry elsewhere", s, i, e.term);
    if (W->com[i].h && e.term == W->com[i].term && e.h() != W->com[i].h)
        violate(4, "server %d stores a different entry for committed index %lu", s, i);
}
static void push_entry(int s, const LE& e)
{
    Persist& P = W->s[s].P;
    uint64_t prev = chain_at(P, P.next() - 1);
    P.log.push_back(e);
    P.chain.push_back(mk_chain(prev, e));
}
static void truncate_from(int s, ulong idx, const LE* by)
{
    Srv& S = W->s[s];
    Persist& P = S.P;
    for (ulong i = P.next(); i-- > idx;)
    {
        const LE& o = log_at(P, i);
        if (i < MAXI && W->com[i].h && P.term >= W->com[i].cterm && W->com[i].term == o.term && W->com[i].h == o.h())
            violate(4, "server %d removes committed entry %lu (term %lu) from its log", s, i, o.term);
        if (i <= S.applied && i < MAXI && S.done[i]) violate(4, "server %d removes entry %lu which it already applied", s, i);
        if (o.type == log_val_type::app_log && i < MAXI && S.pre[i])
        {
            if (S.pre[i] != 1) violate(6, "server %d drops entry %lu from its log without rolling it back", s, i);
            S.pre[i] = 0;
        }
    }
    if (by && log_has(P, idx) && log_at(P, idx).term == by->term)
        violate(3, "server %d overwrites entry %lu although it agrees with the incoming entry (term %lu)", s, idx, by->term);
    P.log.resize(idx - P.start);
    P.chain.resize(idx - P.start);
    cov(CV_OVERWRITE);
}
static std::string buf_str(buffer& b)
{
    size_t p = b.pos();
    b.pos(0);
    std::string r((const char*)b.data(), b.size());
    b.pos(p);
    return r;
}
static bufptr str_buf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    b->pos(0);
    return b;
}
static LE to_le(log_entry& e) { return LE{e.get_term(), (int)e.get_val_type(), buf_str(e.get_buf())}; }
static ptr<log_entry> to_entry(const LE& e)
{
    TagScope t(rt::TAG_SUT);
    return cs_new<log_entry>(e.term, str_buf(e.data), (log_val_type)e.type);
}
static void conf_appended(int s, ulong idx);

class MemLog : public log_store
{
public:
    int s;
    explicit MemLog(int s_) : s(s_) {}
    Persist& P() const { return W->s[s].P; }
    ulong next_slot() const override { return P().next(); }
    ulong start_index() const override { return P().start; }
    ptr<log_entry> last_entry() const override
    {
        TagScope t(rt::TAG_HARNESS);
        if (P().log.empty()) return to_entry(LE{0, log_val_type::app_log, ""});
        return to_entry(P().log.back());
    }
    ulong append(ptr<log_entry>& e) override
    {
        TagScope t(rt::TAG_HARNESS);
        persist_point(s);
        ulong i = P().next();
        push_entry(s, to_le(*e));
        note_entry(s, i);
        if (e->get_val_type() == log_val_type::conf) conf_appended(s, i);
        return i;
    }
    void write_at(ulong idx, ptr<log_entry>& e) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (idx < P().start || idx > P().next()) throw std::range_error("index out of range");
        persist_point(s);
        LE le = to_le(*e);
        if (W->s[s].lead && W->s[s].lead_term == P().term) violate(3, "leader %d overwrites its own log at %lu", s, idx);
        truncate_from(s, idx, &le);
        push_entry(s, le);
        note_entry(s, idx);
        if (e->get_val_type() == log_val_type::conf) conf_appended(s, idx);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (a < P().start) throw std::range_error("index out of range");
        if (a >= b || a >= P().next()) return ptr<std::vector<ptr<log_entry>>>();
        ptr<std::vector<ptr<log_entry>>> v;
        {
            TagScope t2(rt::TAG_SUT);
            v = cs_new<std::vector<ptr<log_entry>>>();
        }
        for (ulong i = a; i < b && i < P().next(); i++) { TagScope t2(rt::TAG_SUT); v->push_back(to_entry(log_at(P(), i))); }
        return v;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (i < P().start) throw std::range_error("index out of range");
        if (i >= P().next()) return ptr<log_entry>();
        return to_entry(log_at(P(), i));
    }
    ulong term_at(ulong i) override
    {
        if (i < P().start || i >= P().next()) throw std::range_error("index out of range");
        return log_at(P(), i).term;
    }
    bufptr pack(ulong idx, int32 cnt) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (idx < P().start) throw std::range_error("index out of range");
        std::string r;
        for (ulong i = idx; i < idx + cnt && i < P().next(); i++)
        {
            const LE& e = log_at(P(), i);
            uint32_t n = e.data.size();
            r.append((const char*)&e.term, 8);
            r.append((const char*)&e.type, 4);
            r.append((const char*)&n, 4);
            r.append(e.data);
        }
        TagScope t2(rt::TAG_SUT);
        return str_buf(r);
    }
    void apply_pack(ulong idx, buffer& b) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (idx < P().start || idx > P().next()) throw std::range_error("index out of range");
        persist_point(s);
        std::string r = buf_str(b);
        if (idx < P().next()) truncate_from(s, idx, nullptr);
        size_t p = 0;
        while (p < r.size())
        {
            LE e;
            uint32_t n;
            memcpy(&e.term, &r[p], 8);
            memcpy(&e.type, &r[p + 8], 4);
            memcpy(&n, &r[p + 12], 4);
            e.data = r.substr(p + 16, n);
            p += 16 + n;
            ulong i = P().next();
            push_entry(s, e);
            note_entry(s, i);
            if (i < MAXI) W->s[s].pre[i] = 1; // committed entries received in bulk
        }
    }
    bool compact(ulong idx) override
    {
        TagScope t(rt::TAG_HARNESS);
        Persist& p = P();
        if (idx < p.start) throw std::range_error("index out of range");
        persist_point(s);
        bool covered = false;
        for (auto& sn : p.snaps)
            if (sn.idx >= idx) covered = true;
        if (p.in.idx >= idx)
        {
            bool full = true;
            for (bool x : p.in_have) full = full && x;
            if (full) covered = true;
        }
        if (!covered) violate(8, "server %d compacts its log up to %lu but no snapshot covers that index", s, idx);
        // what precedes the log from now on is the snapshot, whatever this server had there before
        uint64_t c = log_has(p, idx) ? chain_at(p, idx) : 0;
        for (auto& sn : p.snaps)
            if (sn.idx == idx && idx < MAXI && sn.term < MAXT && W->chain_of[idx][sn.term]) c = W->chain_of[idx][sn.term];
        if (p.in.idx == idx && idx < MAXI && p.in.term < MAXT && W->chain_of[idx][p.in.term]) c = W->chain_of[idx][p.in.term];
        p.base_chain = c;
        if (idx + 1 >= p.next())
        {
            p.log.clear();
            p.chain.clear();
        }
        else
        {
            p.log.erase(p.log.begin(), p.log.begin() + (idx + 1 - p.start));
            p.chain.erase(p.chain.begin(), p.chain.begin() + (idx + 1 - p.start));
        }
        p.start = idx + 1;
        return true;
    }
};

// ------------------------------------------------------------------------------------------- configuration
static ptr<cluster_config> parse_conf(const std::string& s)
{
    bufptr b = str_buf(s);
    return cluster_config::deserialize(*b);
}
static std::string conf_str(const cluster_config& c) { bufptr b = const_cast<cluster_config&>(c).serialize(); return buf_str(*b); }
static uint32_t conf_mask(cluster_config& c)
{
    uint32_t m = 0;
    for (auto& x : c.get_servers()) m |= 1u << x->get_id();
    return m;
}
// server s put a configuration entry into its log
static void conf_appended(int s, ulong idx)
{
    Srv& S = W->s[s];
    Persist& P = S.P;
    cov(CV_CONF);
    const LE& e = log_at(P, idx);
    ptr<cluster_config> c = parse_conf(e.data);
    if (e.term >= MAXT || idx >= MAXI) return;
    bool created = W->curp == s && e.term == P.term && W->leader_of[e.term] == s;
    if (c->get_log_idx() != idx) violate(7, "server %d: configuration entry at %lu names index %lu", s, idx, (ulong)c->get_log_idx());
    if (!created) return; // replicated copy: identity is checked by log matching
    if (!S.lead) violate(7, "server %d starts a membership change although it is not the leader", s);
    uint32_t oldm = P.conf_mask, newm = conf_mask(*c);
    if (oldm != newm)
    {
        for (ulong i = std::max(P.start, P.conf_idx + 1); i < idx; i++)
            if (log_at(P, i).type == log_val_type::conf && conf_mask(*parse_conf(log_at(P, i).data)) != oldm)
                violate(7, "leader %d starts a membership change at %lu while the one at %lu is not committed", s, idx, i);
        uint32_t d = oldm ^ newm;
        // known finding 1: a leader of two drops its peer while another server still uses an older configuration
        // (or was even elected under that older configuration already, which is impossible among the two of them)
        if (popc(oldm) == 2 && popc(newm) == 1 && !follow_findings)
        {
            for (int v = 1; v <= C->n; v++)
                if (v != s && W->s[v].ever_member && !W->s[v].removed && W->s[v].P.conf_idx < P.conf_idx) W->finding = 1;
            for (ulong t = e.term + 1; t < MAXT; t++)
                if (W->leader_of[t] > 0) W->finding = 1;
        }
        if (popc(d) != 1) violate(7, "membership change at %lu differs from the previous configuration in %d servers", idx, popc(d));
        if ((newm & d & ~W->added_req) || (oldm & d & ~W->removed_req)) violate(7, "membership change at %lu was not requested", idx);
    }
}

static void update_legit();
class Mgr : public state_mgr
{
public:
    int s;
    ptr<log_store> ls;
    explicit Mgr(int s_) : s(s_) {}
    ptr<cluster_config> load_config() override
    {
        TagScope t(rt::TAG_SUT);
        return parse_conf(W->s[s].P.conf);
    }
    void save_config(const cluster_config& c) override
    {
        TagScope t(rt::TAG_HARNESS);
        persist_point(s);
        Srv& S = W->s[s];
        update_legit(); // under the configuration in force so far
        ulong i = c.get_log_idx();
        std::string cs = conf_str(c);
        uint32_t m = conf_mask(const_cast<cluster_config&>(c));
        bool self = m >> s & 1;
        if (i && i < MAXI && self)
        {
            uint64_t h = H(cs.data(), cs.size(), 3) | 1;
            if (!W->conf_at[i])
            {
                W->conf_at[i] = h;
                if (log_has(S.P, i) && (log_at(S.P, i).type != log_val_type::conf || log_at(S.P, i).data != cs))
                    violate(7, "server %d persists a configuration for index %lu that is not the one in its log", s, i);
            }
            else if (W->conf_at[i] != h) violate(7, "server %d persists a different configuration for index %lu than another server", s, i);
            if (i < S.P.conf_idx) violate(7, "server %d goes back to the configuration of index %lu from %lu", s, i, S.P.conf_idx);
        }
        S.P.conf = cs;
        S.P.conf_idx = i;
        S.P.conf_mask = m;
        if (self) S.ever_member = true, S.joining = false;
        else if (S.ever_member) S.removed = true, S.expect_exit = true, cov(CV_REMOVED);
    }
    void save_state(const srv_state& st) override
    {
        TagScope t(rt::TAG_HARNESS);
        persist_point(s);
        Persist& P = W->s[s].P;
        if (st.get_term() < P.term) violate(2, "server %d persists term %lu after term %lu", s, (ulong)st.get_term(), P.term);
        if (P.has_state && st.get_term() == P.term && P.vote != -1 && st.get_voted_for() != P.vote)
            violate(2, "server %d replaces its persisted vote %d of term %lu by %d", s, P.vote, P.term, st.get_voted_for());
        P.term = st.get_term();
        P.vote = st.get_voted_for();
        P.has_state = true;
        if (W->s[s].lead && W->s[s].lead_term != P.term) W->s[s].lead = false;
    }
    ptr<srv_state> read_state() override
    {
        Persist& P = W->s[s].P;
        if (!P.has_state) return ptr<srv_state>();
        TagScope t(rt::TAG_SUT);
        ptr<srv_state> r = cs_new<srv_state>();
        r->set_term(P.term);
        r->set_voted_for(P.vote);
        return r;
    }
    ptr<log_store> load_log_store() override
    {
        TagScope t(rt::TAG_HARNESS);
        if (!ls) ls = cs_new<MemLog>(s);
        return ls;
    }
    int32 server_id() override { return s; }
    void system_exit(const int code) override
    {
        Srv& S = W->s[s];
        cov(CV_EXIT);
        if (!S.removed) violate(10, "server %d asks for process exit (%d) although it was not removed from the cluster", s, code);
        S.exited = true;
        rt::abandon();
    }
};

// ------------------------------------------------------------------------------------------- state machine
static std::string content_of(const std::map<ulong, std::string>& sm, ulong upto)
{
    std::string r = "S";
    for (auto& x : sm)
        if (x.first <= upto) { r += (char)('0' + x.first); r += x.second; r += ';'; }
    return r;
}
// the commit rule seen from outside: an entry is committed once the leader of its own term and enough members to
// form a majority with it have stored it in that term; everything before it is committed with it
static void update_legit()
{
    for (int s = 1; s <= C->n; s++)
    {
        Srv& S = W->s[s];
        Persist& P = S.P;
        if (!S.up || !S.lead || S.lead_term != P.term || P.term >= MAXT) continue;
        for (ulong j = P.next() - 1; j > W->legit && log_has(P, j) && log_at(P, j).term == P.term; j--)
        {
            uint32_t m = 0;
            for (int v = 1; v <= C->n; v++)
                if (v == s || W->match_of[P.term][v] >= j) m |= 1u << v;
            if (popc(m & P.conf_mask) * 2 <= popc(P.conf_mask)) continue;
            for (ulong k = W->legit + 1; k <= j && k < MAXI; k++)
                if (log_has(P, k) && !W->com[k].h)
                {
                    const LE& e = log_at(P, k);
                    W->com[k].term = e.term;
                    W->com[k].type = e.type;
                    W->com[k].h = e.h();
                    W->com[k].cterm = P.term;
                }
            W->legit = j;
            break;
        }
    }
}
// server s treats idx as committed
static void check_committed(int s, ulong idx, const char* what)
{
    if (idx <= W->legit) return;
    update_legit();
    if (idx <= W->legit) return;
    Persist& P = W->s[s].P;
    // a leader of two may drop an unreachable peer on its own
    if (W->removed_req && popc(P.conf_mask) <= 2) return;
    ulong t = log_has(P, idx) ? log_at(P, idx).term : 0;
    violate(4, "server %d %s entry %lu (term %lu) which is not committed: no leader of that term has it on a majority", s, what, idx, t);
    violate(5, "server %d %s entry %lu (term %lu) which is not committed", s, what, idx, t);
}
class SM : public state_machine
{
public:
    int s;
    explicit SM(int s_) : s(s_) {}
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        TagScope t(rt::TAG_HARNESS);
        cov(CV_COMMIT);
        Srv& S = W->s[s];
        Persist& P = S.P;
        std::string data = buf_str(d);
        if (d.pos() != 0) violate(5, "server %d: entry %lu handed to the state machine with a consumed buffer", s, i);
        // order
        if (i <= S.applied) violate(5, "server %d applies entry %lu after entry %lu", s, i, S.applied);
        else
        {
            for (ulong k = S.applied + 1; k < i; k++)
                if (log_has(P, k) ? log_at(P, k).type == log_val_type::app_log : (k >= MAXI || !W->com[k].h || W->com[k].type == log_val_type::app_log)) { violate(5, "server %d applies entry %lu but skipped entry %lu", s, i, k); break; }
        }
        if (!log_has(P, i)) violate(5, "server %d applies entry %lu which is not in its log", s, i);
        else
        {
            const LE& e = log_at(P, i);
            if (e.type != log_val_type::app_log) violate(5, "server %d hands entry %lu of type %d to the state machine", s, i, e.type);
            if (e.data != data) violate(5, "server %d applies bytes at %lu that differ from its log", s, i);
            check_committed(s, i, "applies");
            if (i < MAXI)
            {
                Committed& c = W->com[i];
                if (!c.h) {}
                else if (c.h != e.h() || c.type != e.type)
                {
                    violate(4, "server %d applies a different entry at %lu than another server did", s, i);
                    violate(5, "server %d applies a different entry at %lu than another server did", s, i);
                }
            }
        }
        if (i < MAXI)
        {
            uint64_t h = H(data.data(), data.size(), 7 + log_val_type::app_log) | 1;
            if (!S.pre[i]) violate(6, "server %d commits entry %lu without announcing it first", s, i);
            else if (S.pre[i] != 1 && S.pre[i] != h) violate(6, "server %d commits entry %lu with other content than announced", s, i);
            S.done[i] = true;
        }
        S.applied = S.cm = i;
        P.sm_last = i;
        P.sm[i] = data;
    }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        TagScope t(rt::TAG_HARNESS);
        Srv& S = W->s[s];
        Persist& P = S.P;
        if (i >= MAXI) return;
        std::string data = buf_str(d);
        if (!log_has(P, i) || log_at(P, i).type != log_val_type::app_log || log_at(P, i).data != data)
            violate(6, "server %d announces entry %lu which is not the one in its log", s, i);
        if (d.pos() != 0) violate(6, "server %d: entry %lu announced with a consumed buffer", s, i);
        if (S.pre[i]) violate(6, "server %d announces entry %lu twice", s, i);
        S.pre[i] = H(data.data(), data.size(), 7 + log_val_type::app_log) | 1;
        if (S.pre[i] == 1) S.pre[i] = 3;
    }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        TagScope t(rt::TAG_HARNESS);
        cov(CV_ROLLBACK);
        Srv& S = W->s[s];
        Persist& P = S.P;
        if (i >= MAXI) return;
        std::string data = buf_str(d);
        uint64_t h = H(data.data(), data.size(), 7 + log_val_type::app_log) | 1;
        if (S.done[i] || i <= S.applied) violate(6, "server %d rolls back committed entry %lu", s, i);
        if (!S.pre[i] || (S.pre[i] != 1 && S.pre[i] != h)) violate(6, "server %d rolls back entry %lu which was not announced with that content", s, i);
        if (!log_has(P, i) || log_at(P, i).data != data) violate(6, "server %d rolls back entry %lu after its index was reused", s, i);
        S.pre[i] = 0;
    }
    void save_snapshot_data(snapshot& sn, const ulong off, buffer& d) override
    {
        TagScope t(rt::TAG_HARNESS);
        cov(CV_SNAPBLK);
        persist_point(s);
        Persist& P = W->s[s].P;
        std::string data = buf_str(d);
        ulong i = sn.get_last_log_idx();
        if (P.in.idx != i || P.in.term != sn.get_last_log_term())
        {
            P.in = Snap();
            P.in.idx = i;
            P.in.term = sn.get_last_log_term();
            P.in.conf = conf_str(*sn.get_last_config());
            P.in.data.assign(sn.size(), 0);
            P.in_have.assign(sn.size(), false);
        }
        if (off + data.size() > P.in.data.size()) { violate(8, "server %d gets a snapshot block beyond the snapshot (offset %lu)", s, (ulong)off); return; }
        auto it = W->snap_content.find(i);
        if (it == W->snap_content.end()) violate(8, "server %d gets a block of a snapshot (%lu) nobody made", s, i);
        else if (it->second.size() != sn.size() || it->second.compare(off, data.size(), data) != 0)
            violate(8, "server %d gets a snapshot block (index %lu offset %lu) that differs from the source", s, i, (ulong)off);
        for (size_t k = 0; k < data.size(); k++) { P.in.data[off + k] = data[k]; P.in_have[off + k] = true; }
    }
    bool apply_snapshot(snapshot& sn) override
    {
        TagScope t(rt::TAG_HARNESS);
        cov(CV_SNAPINST);
        persist_point(s);
        Srv& S = W->s[s];
        Persist& P = S.P;
        ulong i = sn.get_last_log_idx();
        if (P.in.idx != i) { violate(8, "server %d applies snapshot %lu that it did not receive", s, i); return true; }
        for (bool x : P.in_have)
            if (!x) { violate(8, "server %d applies snapshot %lu with missing blocks", s, i); break; }
        if (i < S.applied) violate(8, "server %d applies snapshot %lu behind its state %lu", s, i, S.applied);
        if (i < MAXI && P.in.term < MAXT && !W->chain_of[i][P.in.term]) violate(8, "snapshot %lu has term %lu but no such entry existed", i, P.in.term);
        // configuration in force at i
        check_conf(P.in.conf, i);
        // rebuild the state
        P.sm.clear();
        for (size_t p = 1; p + 1 < P.in.data.size();)
        {
            ulong k = P.in.data[p] - '0';
            size_t e = P.in.data.find(';', p + 1);
            if (e == std::string::npos) break;
            P.sm[k] = P.in.data.substr(p + 1, e - p - 1);
            p = e + 1;
        }
        P.sm_last = i;
        S.applied = i;
        for (ulong k = 0; k < MAXI; k++)
            if (k <= i) { S.done[k] = true; S.pre[k] = 1; }
        add_snap(P, P.in);
        P.in = Snap();
        P.in_have.clear();
        return true;
    }
    static void add_snap(Persist& P, const Snap& x)
    {
        for (auto& y : P.snaps)
            if (y.idx == x.idx) { y = x; return; }
        size_t k = P.snaps.size();
        while (k > 0 && P.snaps[k - 1].idx > x.idx) k--;
        P.snaps.insert(P.snaps.begin() + k, x);
        if (P.snaps.size() > 3) P.snaps.erase(P.snaps.begin());
    }
    void check_conf(const std::string& cs, ulong i)
    {
        // the configuration of a snapshot must be the last committed one at or before its index
        ulong best = 0;
        for (ulong k = 1; k <= i && k < MAXI; k++)
            if (W->conf_at[k]) best = k;
        ptr<cluster_config> c = parse_conf(cs);
        if (best && c->get_log_idx() > i) violate(8, "snapshot %lu carries configuration of index %lu", i, (ulong)c->get_log_idx());
        if (best && c->get_log_idx() < best) violate(8, "snapshot %lu carries outdated configuration %lu instead of %lu", i, (ulong)c->get_log_idx(), best);
        if (best && c->get_log_idx() == best && (H(cs.data(), cs.size(), 3) | 1) != W->conf_at[best]) violate(8, "snapshot %lu carries a wrong configuration", i);
    }
    int read_snapshot_data(snapshot& sn, const ulong off, buffer& d) override
    {
        TagScope t(rt::TAG_HARNESS);
        Persist& P = W->s[s].P;
        for (auto& x : P.snaps)
            if (x.idx == sn.get_last_log_idx())
            {
                if (off > x.data.size()) { violate(8, "server %d reads snapshot beyond its end", s); return -1; }
                size_t n = std::min((size_t)(x.data.size() - off), d.size());
                d.pos(0);
                memcpy(d.data(), x.data.data() + off, n);
                d.pos(0);
                return (int)n;
            }
        return -1;
    }
    ptr<snapshot> last_snapshot() override
    {
        TagScope t(rt::TAG_SUT);
        Persist& P = W->s[s].P;
        if (P.snaps.empty()) return ptr<snapshot>();
        auto& x = P.snaps.back();
        return cs_new<snapshot>(x.idx, x.term, parse_conf(x.conf), (ulong)x.data.size());
    }
    ulong last_commit_index() override { return W->s[s].P.sm_last; }
    void create_snapshot(snapshot& sn, async_result<bool>::handler_type& done) override
    {
        TagScope t(rt::TAG_HARNESS);
        Srv& S = W->s[s];
        Persist& P = S.P;
        ulong i = sn.get_last_log_idx();
        Snap x;
        x.idx = i;
        x.term = sn.get_last_log_term();
        x.conf = conf_str(*sn.get_last_config());
        x.data = content_of(P.sm, i);
        cov(CV_SNAPCREATE);
        if (!log_has(P, i) || log_at(P, i).term != x.term) violate(8, "server %d snapshots index %lu with term %lu which is not its log's", s, i, x.term);
        for (auto& k : P.sm)
            if (k.first > i) violate(8, "server %d makes snapshot %lu after applying %lu", s, i, k.first);
        for (ulong k = std::max(P.start, S.applied + 1); k <= i && log_has(P, k); k++)
            if (log_at(P, k).type == log_val_type::app_log) violate(8, "server %d makes snapshot %lu before applying %lu", s, i, k);
        check_conf(x.conf, i);
        W->snap_content[i] = x.data;
        if (C->snap_async)
        {
            Pend p;
            p.s = x;
            {
                TagScope t2(rt::TAG_SUT);
                p.done = new async_result<bool>::handler_type(done);
            }
            S.pend.push_back(p);
            return;
        }
        persist_point(s);
        add_snap(P, x);
        bool ok = true;
        ptr<std::exception> e;
        TagScope t2(rt::TAG_SUT);
        done(ok, e);
    }
};

// ------------------------------------------------------------------------------------------- rpc
static const char* mt(int t)
{
    static const char* n[] = {"?", "vote", "vote_resp", "append", "append_resp", "client", "add", "add_resp", "rm", "rm_resp", "sync", "sync_resp", "join", "join_resp", "leave", "leave_resp", "snap", "snap_resp", "prevote", "prevote_resp"};
    return t >= 0 && t < 20 ? n[t] : "?";
}
static bool link_up(int a, int b)
{
    if (!W->parted) return true;
    return (W->part >> a & 1) == (W->part >> b & 1);
}
static void check_sent(int s, Rpc& r)
{
    Srv& S = W->s[s];
    Persist& P = S.P;
    int t = r.type;
    if (t == msg_type::client_request || t == msg_type::add_server_request || t == msg_type::remove_server_request) return;
    if (r.term > P.term) violate(2, "server %d sends a %s message of term %lu before persisting that term (%lu)", s, mt(t), r.term, P.term);
    if (r.term >= MAXT) return;
    if (t == msg_type::vote_request)
    {
        if (r.term != P.term || P.vote != s) violate(2, "server %d asks for votes in term %lu without having persisted its own vote (term %lu vote %d)", s, r.term, P.term, P.vote);
        int8_t& v = W->vote_of[r.term][s];
        if (v && v != s) violate(2, "server %d votes for itself in term %lu after voting for %d", s, r.term, v);
        v = s;
        if (S.grant_term != r.term) { S.grant_term = r.term; S.granted = 1u << s; }
        S.sent_vote_to |= 1u << r.dst;
        // log position advertised must be the real one
        ulong li = P.next() - 1;
        ulong lt = log_has(P, li) ? log_at(P, li).term : (li == 0 ? 0 : ~0ul);
        if (r.lidx > li || (lt != ~0ul && r.lterm > lt) || (lt == ~0ul && !P.snaps.empty() && P.snaps.back().idx == li && r.lterm > P.snaps.back().term))
            violate(2, "candidate %d claims log position (%lu,%lu) but has (%lu,%lu)", s, r.lidx, r.lterm, li, lt);
        if (C->prevote && popc(P.conf_mask) > 1)
        {
            int agreed = popc(S.pv_ok | 1u << s);
            if (agreed * 2 <= popc(P.conf_mask)) violate(11, "server %d starts an election with only %d of %d members agreeing in the pre-vote", s, agreed, popc(P.conf_mask));
        }
    }
    else if (t == msg_type::append_entries_request || t == msg_type::install_snapshot_request || t == msg_type::sync_log_request)
    {
        int8_t& l = W->leader_of[r.term];
        if (l && l != s) violate(1, "servers %d and %d both act as leader of term %lu", l, s, r.term);
        l = s;
        if (!S.lead || S.lead_term != r.term)
        {
            // the event may be announced after the first message
            uint32_t g = (S.grant_term == r.term ? (S.granted & P.conf_mask) : 0) | (P.vote == s ? 1u << s : 0);
            if (r.term == P.term && popc(g) * 2 > popc(P.conf_mask)) S.lead = true, S.lead_term = r.term;
            else violate(1, "server %d sends %s in term %lu without being elected", s, mt(t), r.term);
        }
        if (t == msg_type::append_entries_request)
        {
            if (r.lidx >= P.next()) violate(3, "leader %d sends entries following index %lu beyond its log", s, r.lidx);
            else if (log_has(P, r.lidx) && log_at(P, r.lidx).term != r.lterm) violate(3, "leader %d names term %lu for index %lu, its log has %lu", s, r.lterm, r.lidx, log_at(P, r.lidx).term);
            else if (!log_has(P, r.lidx) && r.lidx && !P.snaps.empty() && P.snaps.back().idx == r.lidx && P.snaps.back().term != r.lterm) violate(3, "leader %d names a wrong term for its snapshot index %lu", s, r.lidx);
            for (size_t k = 0; k < r.req->log_entries().size(); k++)
            {
                ulong i = r.lidx + 1 + k;
                LE e = to_le(*r.req->log_entries()[k]);
                if (!log_has(P, i) || log_at(P, i).term != e.term || log_at(P, i).type != e.type || log_at(P, i).data != e.data)
                    violate(3, "leader %d sends an entry for index %lu that is not in its log there", s, i);
            }
        }
        if (r.commit >= P.next()) violate(4, "leader %d declares index %lu committed beyond its log", s, r.commit);
        check_committed(s, r.commit, "declares committed");
        if (!(P.conf_mask >> r.dst & 1) && r.type == msg_type::append_entries_request)
            violate(7, "leader %d replicates to server %d which is not in its configuration", s, r.dst);
    }
    else if (t == msg_type::prevote_request)
    {
        if (!S.pv_round) { S.pv_round = true; S.pv_ok = 0; }
    }
}
class Client : public rpc_client
{
public:
    int s, d;
    uint32_t inc;
    Client(int s_, int d_) : s(s_), d(d_), inc(W->s[s_].inc) {}
    void send(ptr<req_msg>& req, rpc_handler& h) override
    {
        TagScope t(rt::TAG_HARNESS);
        if (!req) { violate(10, "server %d sends an empty request", s); return; }
        Rpc* r = new Rpc;
        r->src = s;
        r->dst = d;
        r->src_inc = inc;
        r->type = req->get_type();
        r->term = req->get_term();
        r->lterm = req->get_last_log_term();
        r->lidx = req->get_last_log_idx();
        r->commit = req->get_commit_idx();
        r->msrc = req->get_src();
        r->mdst = req->get_dst();
        r->req = req;
        check_sent(s, *r);
        for (auto& e : req->log_entries()) r->ents.push_back(buf_str(*e->serialize()));
        {
            TagScope t2(rt::TAG_SUT);
            r->handler = new rpc_handler(h);
        }
        r->t = rt::now_ns();
        r->seq = ++W->seq;
        W->rpcs.push_back(r);
    }
};
class Factory : public rpc_client_factory
{
public:
    int s;
    explicit Factory(int s_) : s(s_) {}
    ptr<rpc_client> create_client(const std::string& ep) override
    {
        TagScope t(rt::TAG_HARNESS);
        return cs_new<Client>(s, atoi(ep.c_str()));
    }
};
class Sched : public delayed_task_scheduler
{
public:
    int s;
    explicit Sched(int s_) : s(s_) {}
    void schedule(ptr<delayed_task>& task, int32 ms) override
    {
        TagScope t(rt::TAG_HARNESS);
        drop(task);
        task->reset();
        Timer x;
        x.task = task;
        x.delay = ms;
        x.deadline = rt::now_ns() + (int64_t)ms * 1000000;
        x.hb = dynamic_cast<timer_task<peer&>*>(task.get()) != nullptr;
        x.seq = ++W->seq;
        W->s[s].timers.push_back(x);
    }
    void cancel_impl(ptr<delayed_task>& task) override
    {
        TagScope t(rt::TAG_HARNESS);
        drop(task);
    }
    void drop(ptr<delayed_task>& task)
    {
        auto& v = W->s[s].timers;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].task == task) { v.erase(v.begin() + i); return; }
    }
};
class Log : public logger
{
public:
    int s;
    explicit Log(int s_) : s(s_) {}
    void out(const char* l, const std::string& x)
    {
        if (getenv("VERIF_LOG")) fprintf(stderr, "    [%d] %s %s\n", s, l, x.c_str());
    }
    void debug(const std::string& x) override { out("D", x); }
    void info(const std::string& x) override { out("I", x); }
    void warn(const std::string& x) override { out("W", x); }
    void err(const std::string& x) override { out("E", x); }
};
class Events : public raft_event_listener
{
public:
    int s;
    explicit Events(int s_) : s(s_) {}
    void on_event(raft_event e) override
    {
        TagScope t(rt::TAG_HARNESS);
        Srv& S = W->s[s];
        Persist& P = S.P;
        if (e == raft_event::become_leader)
        {
            cov(CV_LEADER);
            became_leader();
        }
        else if (e == raft_event::become_follower) S.lead = false;
        (void)P;
    }
    void became_leader()
    {
        Srv& S = W->s[s];
        Persist& P = S.P;
        S.lead = true;
        S.lead_term = P.term;
        if (P.term < MAXT)
        {
            int8_t& l = W->leader_of[P.term];
            if (l && l != s) violate(1, "servers %d and %d both become leader of term %lu", l, s, P.term);
            l = s;
        }
        uint32_t g = S.grant_term == P.term ? (S.granted & P.conf_mask) : 0;
        g |= P.vote == s ? 1u << s : 0;
        if (popc(g) * 2 <= popc(P.conf_mask)) violate(1, "server %d becomes leader of term %lu with %d votes of %d members", s, P.term, popc(g), popc(P.conf_mask));
        // leader completeness
        for (ulong i = 1; i < MAXI; i++)
        {
            Committed& c = W->com[i];
            if (!c.h || i < P.start || P.term <= c.cterm) continue;
            if (!log_has(P, i) || log_at(P, i).term != c.term || log_at(P, i).h() != c.h)
                violate(4, "server %d becomes leader of term %lu without committed entry %lu (term %lu)", s, P.term, i, c.term);
        }
    }
};

// ------------------------------------------------------------------------------------------- servers
static raft_params* mk_params()
{
    raft_params* p = new raft_params;
    p->election_timeout_lower_bound_ = C->el_lo;
    p->election_timeout_upper_bound_ = C->el_hi;
    p->heart_beat_interval_ = C->hb;
    p->rpc_failure_backoff_ = C->backoff;
    p->snapshot_distance_ = C->snap_dist;
    p->snapshot_block_size_ = C->snap_block;
    p->reserved_log_items_ = C->reserved;
    p->max_append_size_ = C->max_append;
    p->log_sync_batch_size_ = C->sync_batch;
    p->log_sync_stop_gap_ = C->stop_gap;
    p->prevote_enabled_ = C->prevote;
    p->defensive_prevote_ = C->defensive;
    return p;
}
static void start_server(int s)
{
    TagScope t(rt::TAG_HARNESS);
    Srv& S = W->s[s];
    S.up = true;
    S.inc++;
    S.lead = false;
    S.granted = 0;
    S.grant_term = 0;
    S.pv_ok = 0;
    S.pv_round = false;
    S.lost_contact = false;
    S.known = S.heard = 0;
    S.cm = 0;
    S.applied = S.P.sm_last;
    S.pend.clear();
    for (int i = 0; i <= MAXS; i++) S.last_resp[i] = 0, S.ever_resp[i] = false;
    for (ulong i = 0; i < MAXI; i++)
    {
        S.pre[i] = log_has(S.P, i) || i < S.P.start ? 1 : 0; // announced in an earlier life
        S.done[i] = i <= S.applied;
    }
    ptr<state_mgr> mgr = cs_new<Mgr>(s);
    ptr<state_machine> sm = cs_new<SM>(s);
    ptr<logger> lg = cs_new<Log>(s);
    ptr<rpc_client_factory> f = cs_new<Factory>(s);
    ptr<delayed_task_scheduler> sc = cs_new<Sched>(s);
    ptr<raft_event_listener> ev = cs_new<Events>(s);
    ptr<rpc_listener> nl;
    context* ctx = new context(mgr, sm, nl, lg, f, sc, ev, mk_params());
    TagScope t2(rt::TAG_SUT);
    S.rs = new raft_server(ctx);
}
static void take_down(int s)
{
    // host side: the process of server s is gone
    Srv& S = W->s[s];
    S.up = false;
    S.lead = false;
    S.rs = nullptr;
    S.timers.clear();
    S.pend.clear();
    S.expect_exit = false;
    for (size_t i = 0; i < W->rpcs.size();)
    {
        Rpc* r = W->rpcs[i];
        if (r->src == s)
        {
            r->handler = nullptr;
            r->orphan = true;
            if (r->phase == 1) { W->rpcs.erase(W->rpcs.begin() + i); continue; }
        }
        if (r->dst == s && r->phase == 1) {} // response already on the wire
        i++;
    }
}

// ------------------------------------------------------------------------------------------- events
static ptr<req_msg> rebuild(Rpc& r)
{
    TagScope t(rt::TAG_SUT);
    ptr<req_msg> m = cs_new<req_msg>(r.term, (msg_type)r.type, r.msrc, r.mdst, r.lterm, r.lidx, r.commit);
    for (auto& e : r.ents)
    {
        bufptr b = str_buf(e);
        m->log_entries().push_back(log_entry::deserialize(*b));
    }
    return m;
}
static ulong last_term_of(const Persist& P)
{
    ulong li = P.next() - 1;
    if (log_has(P, li)) return log_at(P, li).term;
    if (li == 0) return 0;
    for (auto& x : P.snaps)
        if (x.idx == li) return x.term;
    return 0;
}
// deliver the request of r to its destination (fiber)
static void do_request(Rpc* r)
{
    Srv& S = W->s[r->dst];
    Persist& P = S.P;
    W->curp = r->dst;
    ulong term0 = P.term;
    int vote0 = P.vote;
    ulong next0 = P.next(), lterm0 = last_term_of(P);
    bool lead0 = S.lead;
    bool lost0 = S.lost_contact;
    uint64_t logh0 = 0;
    if (r->type == msg_type::append_entries_request || r->type == msg_type::install_snapshot_request)
    {
        if (r->term >= P.term) { S.lost_contact = false; S.pv_round = false; S.heard = r->src; }
    }
    if (r->type == msg_type::join_cluster_request) S.joining = true;
    if (r->type == msg_type::leave_cluster_request) {}
    for (auto& e : P.log) logh0 = logh0 * 131 + e.h() + e.term;
    ptr<req_msg> m = rebuild(*r);
    ptr<resp_msg> resp;
    {
        TagScope t(rt::TAG_SUT);
        resp = S.rs->process_req(*m);
    }
    TagScope t(rt::TAG_HARNESS);
    if (!resp) { violate(10, "server %d gives no response to %s", r->dst, mt(r->type)); return; }
    r->has_resp = true;
    r->rtype = resp->get_type();
    r->rsrc = resp->get_src();
    r->rdst = resp->get_dst();
    r->rterm = resp->get_term();
    r->rnext = resp->get_next_idx();
    r->racc = resp->get_accepted();
    r->phase = 1;
    if (r->racc && (r->type == msg_type::append_entries_request || r->type == msg_type::install_snapshot_request)) S.known = r->src;
    // a response depends on persisted state
    bool raft_msg = r->type == msg_type::vote_request || r->type == msg_type::append_entries_request || r->type == msg_type::install_snapshot_request;
    if (r->rterm > P.term || (raft_msg && !S.joining && r->rterm != P.term))
        violate(2, "server %d answers %s with term %lu while its persisted term is %lu", r->dst, mt(r->type), r->rterm, P.term);
    if (P.term < term0 && !S.joining) violate(2, "term of server %d went back from %lu to %lu", r->dst, term0, P.term);
    if (r->type == msg_type::vote_request)
    {
        if (r->racc)
        {
            if (P.term != r->rterm || P.vote != r->msrc) violate(2, "server %d grants its vote to %d in term %lu without persisting it (persisted vote %d)", r->dst, r->msrc, r->rterm, P.vote);
            if (r->term < term0 || r->term != r->rterm) violate(2, "server %d grants a vote to a candidate of an old term", r->dst);
            if (r->lterm < lterm0 || (r->lterm == lterm0 && r->lidx + 1 < next0))
                violate(2, "server %d (last entry %lu term %lu) votes for candidate %d whose log is behind (%lu term %lu)", r->dst, next0 - 1, lterm0, r->msrc, r->lidx, r->lterm);
            if (r->rterm < MAXT)
            {
                int8_t& v = W->vote_of[r->rterm][r->dst];
                if (v && v != r->msrc) violate(2, "server %d votes for both %d and %d in term %lu", r->dst, v, r->msrc, r->rterm);
                v = r->msrc;
            }
            if (lead0 && P.term == term0) violate(1, "leader %d grants a vote in its own term %lu", r->dst, term0);
        }
        else if (P.term == term0 && P.vote != vote0) violate(2, "server %d refuses a vote but changes its vote", r->dst);
    }
    else if (r->type == msg_type::prevote_request)
    {
        cov(CV_PREVOTE);
        uint64_t h = 0;
        for (auto& e : P.log) h = h * 131 + e.h() + e.term;
        if (P.term != term0 || P.vote != vote0 || h != logh0 || S.lead != lead0) violate(11, "answering a pre-vote request changes server %d", r->dst);
        if (r->racc)
        {
            if (r->term < P.term) violate(11, "server %d agrees to a pre-vote of an older term", r->dst);
            if (r->lterm < lterm0 || (r->lterm == lterm0 && r->lidx + 1 < next0)) violate(11, "server %d agrees to a pre-vote of a server whose log is behind", r->dst);
            if (C->defensive && !lost0) violate(11, "server %d agrees to a pre-vote although it has not lost contact with the leader", r->dst);
        }
    }
    else if (r->type == msg_type::append_entries_request)
    {
        if (!r->racc) cov(CV_REJECT);
        if (r->racc)
        {
            if (r->term < term0) violate(3, "server %d (term %lu) accepts entries from a leader of term %lu", r->dst, term0, r->term);
            // everything acknowledged is stored and matches
            for (size_t k = 0; k < r->ents.size(); k++)
            {
                ulong i = r->lidx + 1 + k, et;
                memcpy(&et, r->ents[k].data(), 8);
                if (i < P.start) continue;
                if (!log_has(P, i) || log_at(P, i).term != et) { violate(3, "server %d acknowledges entry %lu without storing it", r->dst, i); break; }
            }
            if (r->lidx >= P.start && (!log_has(P, r->lidx) || log_at(P, r->lidx).term != r->lterm)) violate(3, "server %d accepts entries although its log does not match at %lu", r->dst, r->lidx);
            ulong mi = r->lidx + r->ents.size();
            if (r->term < MAXT && r->term == P.term && mi < P.next() && mi < 250 && W->match_of[r->term][r->dst] < mi) W->match_of[r->term][r->dst] = mi;
            if (r->rnext > r->lidx + r->ents.size() + 1) violate(4, "server %d acknowledges up to %lu but the request only proves a match up to %lu", r->dst, r->rnext - 1, r->lidx + r->ents.size());
        }
        else
        {
            uint64_t h = 0;
            for (auto& e : P.log) h = h * 131 + e.h() + e.term;
            if (h != logh0) violate(3, "server %d changes its log while refusing entries", r->dst);
        }
        // any append may only change the log if the consistency check holds
        if (r->term < term0 && P.next() != next0) violate(3, "server %d changes its log for a leader of an old term", r->dst);
    }
    else if (r->type == msg_type::client_request)
    {
        if (!r->racc)
        {
            uint64_t h = 0;
            for (auto& e : P.log) h = h * 131 + e.h() + e.term;
            if (h != logh0) violate(13, "server %d rejects a client request but changes its log", r->dst);
        }
        else
        {
            if (!lead0) violate(13, "server %d accepts client entries without being leader", r->dst);
            if (P.next() != next0 + r->ents.size()) violate(13, "server %d accepts %zu entries but its log grows by %lu", r->dst, r->ents.size(), P.next() - next0);
            else
                for (size_t k = 0; k < r->ents.size(); k++)
                    if (log_at(P, next0 + k).data != r->ents[k].substr(9)) violate(13, "server %d stores other bytes than the client sent", r->dst);
        }
    }
}
static void do_response(Rpc* r)
{
    Srv& S = W->s[r->src];
    W->curp = r->src;
    if (r->rtype == msg_type::vote_response && r->racc && S.grant_term == r->rterm) S.granted |= 1u << r->dst;
    if (r->rtype == msg_type::prevote_response && r->racc) S.pv_ok |= 1u << r->dst;
    if (r->rtype == msg_type::append_entries_response || r->rtype == msg_type::vote_response || r->rtype == msg_type::install_snapshot_response)
        if (r->type != msg_type::client_request) S.last_resp[r->dst] = rt::now_ns(), S.ever_resp[r->dst] = true;
    ptr<resp_msg> m;
    ptr<rpc_exception> err;
    {
        TagScope t(rt::TAG_SUT);
        m = cs_new<resp_msg>(r->rterm, (msg_type)r->rtype, r->rsrc, r->rdst, r->rnext, r->racc);
        rpc_handler* h = r->handler;
        r->handler = nullptr;
        (*h)(m, err);
        delete h;
    }
}
static void do_error(Rpc* r)
{
    W->curp = r->src;
    cov(CV_LATE);
    TagScope t(rt::TAG_SUT);
    ptr<resp_msg> m;
    ptr<rpc_exception> err = cs_new<rpc_exception>(std::string("lost"), r->req);
    rpc_handler* h = r->handler;
    r->handler = nullptr;
    (*h)(m, err);
    delete h;
}
static void forget(Rpc* r)
{
    for (size_t i = 0; i < W->rpcs.size(); i++)
        if (W->rpcs[i] == r)
        {
            W->rpcs.erase(W->rpcs.begin() + i);
            break;
        }
    TagScope t(rt::TAG_SUT);
    if (r->handler) delete r->handler;
    delete r;
}
static std::string payload(uint32_t k)
{
    std::string p = "c";
    p += (char)('a' + k % 26);
    if (k >= 26) p += (char)('a' + k / 26);
    p += std::string(C->payload, 'x');
    return p;
}
static bool expect_leader(int s)
{
    Srv& S = W->s[s];
    if (!S.lead) return false;
    int m = popc(S.P.conf_mask);
    if (m <= 1) return true;
    int n = 1;
    for (int k = 1; k <= C->n; k++)
        if (k != s && (S.P.conf_mask >> k & 1) && S.ever_resp[k] && rt::now_ns() - S.last_resp[k] <= (int64_t)2 * C->el_hi * 1000000) n++;
    return n * 2 > m;
}
static void do_client(int s, int n)
{
    Srv& S = W->s[s];
    W->curp = s;
    std::vector<bufptr>* logs = new std::vector<bufptr>;
    std::vector<std::string> want;
    for (int i = 0; i < n; i++)
    {
        want.push_back(payload(W->nclient++));
        TagScope t(rt::TAG_SUT);
        logs->push_back(str_buf(want.back()));
    }
    CliOp* op = new CliOp;
    op->srv = s;
    W->ops.push_back(op);
    size_t rp0 = W->rpcs.size();
    bool lead0 = S.lead, exp = expect_leader(s);
    ulong next0 = S.P.next();
    ptr<async_result<bool>> r;
    {
        TagScope t(rt::TAG_SUT);
        r = S.rs->append_entries(*logs);
    }
    delete logs;
    bool fwd = false;
    for (size_t i = rp0; i < W->rpcs.size(); i++)
        if (W->rpcs[i]->src == s && W->rpcs[i]->type == msg_type::client_request)
        {
            Rpc& x = *W->rpcs[i];
            fwd = true;
            if (x.dst != S.known && x.dst != S.heard) violate(13, "server %d forwards a client call to %d, the leader it has heard of is %d", s, x.dst, S.known);
            bool same = x.ents.size() == want.size();
            for (size_t k = 0; same && k < want.size(); k++) same = x.ents[k].substr(9) == want[k];
            if (!same) violate(13, "server %d forwards other values, or in another order, than the client submitted", s);
        }
    op->forwarded = fwd;
    if (fwd) cov(CV_FWD);
    if (fwd && lead0) violate(13, "leader %d forwards a client request", s);
    {
        TagScope t(rt::TAG_HARNESS);
        async_result<bool>::handler_type h = [op](bool& v, const ptr<std::exception>& e)
        {
            op->completions++;
            op->result = v && !e;
            op->err = e != nullptr;
            if (op->completions > 1) violate(13, "a client call on server %d completes twice", op->srv);
        };
        r->when_ready(h);
    }
    if (!fwd)
    {
        if (op->completions != 1) violate(13, "client call on server %d is neither completed nor forwarded", s);
        if (op->result)
        {
            if (!lead0) violate(13, "server %d accepts a client call without being leader", s);
            if (!exp) violate(12, "leader %d accepts a client entry without contact to a majority", s);
            if (S.P.next() != next0 + n) violate(13, "server %d reports %d entries accepted but its log grew by %lu", s, n, S.P.next() - next0);
            else
                for (int i = 0; i < n; i++)
                    if (log_at(S.P, next0 + i).data != want[i] || log_at(S.P, next0 + i).term != S.P.term) violate(13, "server %d stores entry %lu differently from what was submitted", s, next0 + i);
        }
        else
        {
            if (S.P.next() != next0) violate(13, "server %d rejects a client call but its log changed", s);
            if (lead0 && exp)
            {
                violate(12, "leader %d with contact to a majority rejects a client entry", s);
                violate(13, "leader %d rejects a client entry", s);
            }
            if (lead0 && !exp) cov(CV_LEASE_NO);
        }
    }
    else if (op->completions != 0) violate(13, "a forwarded client call on server %d completes before the leader answered", s);
}
static void do_replicate(int s)
{
    Srv& S = W->s[s];
    W->curp = s;
    std::string p = payload(W->nclient++);
    bool lead0 = S.lead, exp = expect_leader(s);
    ulong next0 = S.P.next();
    bool r;
    {
        TagScope t(rt::TAG_SUT);
        bufptr b = str_buf(p);
        ptr<void> ck;
        r = S.rs->replicate_log(b, ck, 0);
    }
    bool stored = S.P.next() == next0 + 1 && log_at(S.P, next0).data == p && log_at(S.P, next0).type == log_val_type::app_log && log_at(S.P, next0).term == S.P.term;
    if (r && !stored) violate(13, "direct replication on server %d reports success but the entry is not in its log", s);
    if (!r && S.P.next() != next0) violate(13, "direct replication on server %d reports failure but took the entry", s);
    if (r && !lead0) violate(13, "direct replication on non-leader %d reports success", s);
    if (!r && lead0 && exp) violate(13, "direct replication on leader %d is refused", s);
    if (r && !exp) violate(12, "direct replication succeeds on leader %d without contact to a majority", s);
    if (!r && lead0 && exp) violate(12, "direct replication on leader %d with contact to a majority is refused", s);
}
static void do_member(int s, int x, bool add)
{
    Srv& S = W->s[s];
    W->curp = s;
    if (add) W->added_req |= 1u << x;
    else W->removed_req |= 1u << x;
    bool lead0 = S.lead;
    bool known = S.P.conf_mask >> x & 1;
    ptr<async_result<bool>> r;
    CliOp* op = new CliOp;
    op->srv = s;
    op->kind = add ? 1 : 2;
    W->ops.push_back(op);
    {
        TagScope t(rt::TAG_SUT);
        if (add)
        {
            srv_config c(x, std::to_string(x));
            r = S.rs->add_srv(c);
        }
        else r = S.rs->remove_srv(x);
    }
    async_result<bool>::handler_type h = [op](bool& v, const ptr<std::exception>& e)
    {
        op->completions++;
        op->result = v && !e;
        if (op->completions > 1) violate(13, "a membership call on server %d completes twice", op->srv);
    };
    r->when_ready(h);
    if (lead0 && op->result)
    {
        if (add && known) violate(7, "leader %d accepts adding server %d which is a member already", s, x);
        if (!add && !known) violate(7, "leader %d accepts removing server %d which is no member", s, x);
        if (!add && x == s) violate(7, "leader %d accepts removing itself", s);
        // an uncommitted membership change in the log
        Persist& P = S.P;
        for (ulong i = std::max(P.start, P.conf_idx + 1); i < P.next(); i++)
            if (log_at(P, i).type == log_val_type::conf && conf_mask(*parse_conf(log_at(P, i).data)) != P.conf_mask)
                violate(7, "leader %d accepts a membership change while the one at %lu is not committed", s, i);
    }
    if (!lead0 && op->completions && op->result) violate(7, "server %d accepts a membership change without being leader", s);
}

static Ev* EVP; // event to run (host memory)

static Timer* nth_timer(int s, bool hb, int k)
{
    for (auto& t : W->s[s].timers)
        if (t.hb == hb && k-- == 0) return &t;
    return nullptr;
}
static void fire(int s, Timer* t)
{
    cov(CV_STEP);
    W->curp = s;
    ptr<delayed_task> task = t->task;
    bool hb = t->hb;
    auto& v = W->s[s].timers;
    for (size_t i = 0; i < v.size(); i++)
        if (&v[i] == t) { v.erase(v.begin() + i); break; }
    Srv& S = W->s[s];
    ulong term0 = S.P.term;
    int vote0 = S.P.vote;
    if (!hb && !S.lead) S.lost_contact = true, S.pv_round = false, S.pv_ok = 0;
    {
        TagScope t2(rt::TAG_SUT);
        task->execute();
    }
    if (!hb && C->prevote && popc(S.P.conf_mask) > 1 && (S.P.term != term0 || S.P.vote != vote0) && !(popc(S.pv_ok | 1u << s) * 2 > popc(S.P.conf_mask)))
        violate(11, "election timer of server %d changes its term or vote without pre-vote agreement", s);
}
static void ev_body(void*)
{
    rt::set_tag(rt::TAG_HARNESS);
    Ev e = *EVP;
    switch (e.t)
    {
        case E_TIMER:
        case E_TIMERC: fire(e.a, nth_timer(e.a, false, e.b)); break;
        case E_HB1: fire(e.a, nth_timer(e.a, true, e.b)); break;
        case E_HB:
        {
            int n = 0;
            for (auto& t : W->s[e.a].timers) n += t.hb;
            while (n-- > 0)
                if (Timer* t = nth_timer(e.a, true, 0)) fire(e.a, t);
            break;
        }
        case E_X:
        case E_XC:
        {
            Rpc* r = W->rpcs[e.a];
            if (r->phase == 0) do_request(r);
            break;
        }
        case E_D: do_request(W->rpcs[e.a]); break;
        case E_R:
        {
            Rpc* r = W->rpcs[e.a];
            do_response(r);
            forget(r);
            break;
        }
        case E_ERR:
        {
            Rpc* r = W->rpcs[e.a];
            if (r->handler) do_error(r);
            forget(r);
            break;
        }
        case E_CL: do_client(e.a, e.b); break;
        case E_REPL: do_replicate(e.a); break;
        case E_ADD: do_member(e.a, e.b, true); break;
        case E_RM: do_member(e.a, e.b, false); break;
        case E_RESTART: start_server(e.a); break;
        case E_SNAP:
        case E_SNAPFAIL:
        {
            Srv& S = W->s[e.a];
            W->curp = e.a;
            Pend p = S.pend.front();
            S.pend.erase(S.pend.begin());
            bool ok = e.t == E_SNAP;
            if (ok) SM::add_snap(S.P, p.s);
            ptr<std::exception> x;
            TagScope t(rt::TAG_SUT);
            (*p.done)(ok, x);
            break;
        }
        case E_ISL:
        {
            Srv& S = W->s[e.a];
            bool exp = expect_leader(e.a);
            bool got;
            {
                TagScope t(rt::TAG_SUT);
                got = S.rs->is_leader();
            }
            if (got && !exp) violate(12, "server %d reports leadership %s", e.a, S.lead ? "without contact to a majority" : "without being leader");
            if (!got && exp) violate(12, "leader %d with contact to a majority denies being leader", e.a);
            if (S.lead && !got) cov(CV_LEASE_NO);
            break;
        }
        default: break;
    }
}
static int target_group(const Ev& e)
{
    switch (e.t)
    {
        case E_X:
        case E_XC:
        case E_D: return W->rpcs[e.a]->dst;
        case E_R:
        case E_ERR: return W->rpcs[e.a]->src;
        default: return e.a;
    }
}
static void reap(const char* where)
{
    // host: servers that exited or faulted go down
    rt::Fault* f = rt::fault();
    if (f->kind != rt::FK_NONE)
    {
        int g = f->group;
        if (g >= 1 && g <= MAXS)
        {
            const char* k = f->kind == rt::FK_EXIT ? "exit" : f->what;
            if (f->kind == rt::FK_EXIT && W->s[g].removed) {}
            else if (f->kind == rt::FK_EXIT && W->s[g].exited) {}
            else violate(10, "server %d dies: %s (%s)", g, k, where);
            W->s[g].exited = true;
        }
        else violate(10, "fault outside a server: %s", f->what);
        rt::clear_fault();
    }
    for (int s = 1; s <= C->n; s++)
        if (W->s[s].exited && W->s[s].up)
        {
            rt::kill_group(s);
            take_down(s);
        }
}
static void run_commit(int s)
{
    // run all other fibers of server s until they block
    for (int lim = 0; lim < 2000; lim++)
    {
        int f = -1;
        for (int i = 0; i < rt::MAX_FIBERS; i++)
        {
            rt::Fiber* x = rt::fiber(i);
            if (x->st == rt::F_FREE || x->st == rt::F_DONE || x->st == rt::F_DEAD) continue;
            if (x->group == (uint32_t)s && rt::enabled(i)) { f = i; break; }
        }
        if (f < 0) return;
        W->curp = s;
        rt::run(f);
        reap("committing");
    }
    violate(15, "committing thread of server %d does not come to rest", s);
}
static void end_of_event(int s)
{
    update_legit();
    if (s < 1 || s > MAXS) return;
    Srv& S = W->s[s];
    if (S.up && S.rs)
    {
        Persist& P = S.P;
        if (S.sent_vote_to)
        {
            uint32_t want = P.conf_mask & ~(1u << s);
            if (S.sent_vote_to != want) violate(7, "candidate %d asks servers %x for votes but its configuration has %x", s, S.sent_vote_to, want);
        }
        if (S.cm && C->snap_dist && S.cm >= P.start + C->snap_dist && (P.snaps.empty() || S.cm >= P.snaps.back().idx + C->snap_dist) && S.pend.empty())
        {
            bool conf = !P.snaps.empty();
            for (ulong i = P.start; i <= S.cm && log_has(P, i); i++) conf = conf || log_at(P, i).type == log_val_type::conf;
            if (conf) violate(8, "server %d applies entry %lu but does not create the snapshot that is due", s, S.cm);
        }
        if (S.expect_exit) violate(7, "server %d learned that it was removed but keeps running", s);
        for (ulong i = std::max(P.start, (ulong)1); i < P.next() && i < MAXI; i++)
            if (log_at(P, i).type == log_val_type::app_log && !S.pre[i]) violate(6, "server %d holds entry %lu that was not announced, or was rolled back without being displaced", s, i);
    }
    S.cm = 0;
    S.sent_vote_to = 0;
    S.expect_exit = false;
}
static void one(const Ev& e)
{
    // host: run one event body on a fiber of the target server
    Ev ev = e;
    *EVP = ev;
    int g = target_group(ev);
    W->persist_n = 0;
    W->crash_srv = 0;
    W->crash_k = 0;
    W->crashed_now = false;
    if (ev.t == E_XC) W->crash_srv = g, W->crash_k = ev.b;
    if (ev.t == E_TIMERC) W->crash_srv = g, W->crash_k = ev.c;
    int f = rt::spawn(ev_body, nullptr, g);
    rt::fiber(f)->detached = 1;
    rt::run(f);
    reap(ev_str(ev).c_str());
    int lim = 0;
    while (W->s[g].up && rt::fiber(f)->st != rt::F_DONE && rt::fiber(f)->st != rt::F_DEAD && lim++ < 1000)
    {
        // blocked: let the other threads of the server go on
        int nf = -1;
        for (int i = 0; i < rt::MAX_FIBERS; i++)
        {
            rt::Fiber* x = rt::fiber(i);
            if (x->st == rt::F_FREE || x->st == rt::F_DONE || x->st == rt::F_DEAD) continue;
            if (x->group == (uint32_t)g && rt::enabled(i)) { nf = i; break; }
        }
        if (nf < 0)
        {
            violate(10, "server %d deadlocks while handling %s", g, ev_str(ev).c_str());
            violate(9, "server %d deadlocks while handling %s", g, ev_str(ev).c_str());
            violate(15, "server %d deadlocks while handling %s", g, ev_str(ev).c_str());
            W->s[g].exited = true;
            reap("deadlock");
            break;
        }
        rt::run(nf);
        reap(ev_str(ev).c_str());
    }
    bool crash = W->crashed_now;
    if (!crash && W->s[g].up && !C->lazy_commit) run_commit(g);
    crash = crash || W->crashed_now;
    W->crash_srv = 0;
    if (crash)
    {
        cov(CV_PERSCRASH);
        rt::kill_group(g);
        take_down(g);
        if (!W->s[g].ever_member) W->s[g].gone = true;
    }
    end_of_event(g);
}
void apply(const Ev& e)
{
    switch (e.t)
    {
        case E_X:
        {
            Rpc* r = W->rpcs[e.a];
            int src = r->src;
            uint32_t seq = r->seq;
            one(e);
            // response, unless the exchange broke
            size_t k = 0;
            for (; k < W->rpcs.size(); k++)
                if (W->rpcs[k]->seq == seq) break;
            if (k == W->rpcs.size()) break;
            if (W->rpcs[k]->phase == 0) { Ev x; x.t = E_ERR; x.a = k; if (W->s[src].up) one(x); else { W->rpcs.erase(W->rpcs.begin() + k); } break; }
            if (W->rpcs[k]->orphan || !W->s[src].up) { W->rpcs.erase(W->rpcs.begin() + k); break; }
            Ev x;
            x.t = E_R;
            x.a = k;
            one(x);
            break;
        }
        case E_XC:
        {
            Rpc* r = W->rpcs[e.a];
            uint32_t seq = r->seq;
            int src = r->src;
            one(e);
            size_t k = 0;
            for (; k < W->rpcs.size(); k++)
                if (W->rpcs[k]->seq == seq) break;
            if (k == W->rpcs.size()) break;
            Ev x;
            x.a = k;
            x.t = W->rpcs[k]->phase == 0 ? E_ERR : E_R;
            if (W->rpcs[k]->orphan || !W->s[src].up) { W->rpcs.erase(W->rpcs.begin() + k); break; }
            one(x);
            break;
        }
        case E_D:
        {
            uint32_t seq = W->rpcs[e.a]->seq;
            one(e);
            for (auto* r : W->rpcs)
                if (r->seq == seq) r->held = true;
            cov(CV_LATE);
            break;
        }
        case E_HOLD: W->rpcs[e.a]->held = true; cov(CV_LATE); break;
        case E_REL: W->rpcs[e.a]->held = false; break;
        case E_DUP:
        {
            // copy of the request stays in the network
            break;
        }
        case E_PART:
            W->part = C->parts[e.a];
            W->parted = W->part != 0;
            break;
        case E_CRASH:
            rt::kill_group(e.a);
            take_down(e.a);
            if (!W->s[e.a].ever_member) W->s[e.a].gone = true;
            break;
        case E_RESTART:
        {
            Srv& S = W->s[e.a];
            cov(CV_RESTART);
            S.exited = false;
            if (C->sm_volatile)
            {
                Persist& P = S.P;
                ulong keep = P.snaps.empty() ? 0 : P.snaps.back().idx;
                while (!P.sm.empty() && P.sm.rbegin()->first > keep) P.sm.erase(std::prev(P.sm.end()));
                P.sm_last = keep;
            }
            one(e);
            break;
        }
        case E_CT: run_commit(e.a); end_of_event(e.a); break;
        case E_TICK: rt::set_now_ns(rt::now_ns() + (int64_t)e.a * 10 * 1000000); break;
        default: one(e);
    }
    bool unheld = false;
    for (auto* r : W->rpcs)
        if (!r->held) unheld = true;
    if (!unheld) W->drain = 0;
    else if (++W->drain > 80 && !W->stab)
    {
        cov(CV_DRAINLIM);
        for (auto* r : W->rpcs) r->held = true;
        W->drain = 0;
    }
}

bool quiescent()
{
    for (auto* r : W->rpcs)
        if (!r->held) return false;
    return true;
}
static bool deliverable(Rpc* r) { return W->s[r->dst].up && link_up(r->src, r->dst); }
void enabled(std::vector<EvC>& out)
{
    out.clear();
    auto add = [&](EvT t, int a, int b, int c, Dev d) { Ev e; e.t = t; e.a = a; e.b = b; e.c = c; out.push_back({e, d}); };
    int first = -1;
    for (size_t i = 0; i < W->rpcs.size(); i++)
        if (!W->rpcs[i]->held) { first = i; break; }
    if (first >= 0)
    {
        Rpc* r = W->rpcs[first];
        if (r->phase == 1)
        {
            // a released response
            if (r->orphan || !W->s[r->src].up || !link_up(r->src, r->dst)) add(E_ERR, first, 0, 0, D_DEFAULT);
            else { add(E_R, first, 0, 0, D_DEFAULT); }
            return;
        }
        if (!deliverable(r)) { add(E_ERR, first, 0, 0, D_DEFAULT); return; }
        add(E_X, first, 0, 0, D_DEFAULT);
        if (!r->orphan)
        {
            add(E_ERR, first, 0, 0, D_FAULT);
            add(E_D, first, 0, 0, D_FAULT);
        }
        add(E_HOLD, first, 0, 0, D_FAULT);
        if (C->ev_crash)
            for (int k = 1; k <= 3; k++) add(E_XC, first, k, 0, D_CRASH);
        return;
    }
    // quiescent: environment events
    bool any_dead = false;
    for (size_t i = 0; i < W->rpcs.size(); i++)
    {
        Rpc* r = W->rpcs[i];
        if (r->phase == 1 && !r->orphan && W->s[r->src].up) { add(E_R, i, 0, 0, D_ENV); add(E_ERR, i, 0, 0, D_ENV); }
        else if (r->phase == 0)
        {
            if (deliverable(r)) add(E_X, i, 0, 0, D_ENV);
            if (!r->orphan && W->s[r->src].up) add(E_ERR, i, 0, 0, D_ENV);
        }
    }
    for (int s = 1; s <= C->n; s++)
    {
        Srv& S = W->s[s];
        if (!S.up)
        {
            any_dead = true;
            if (C->ev_crash && !S.removed && !S.gone && S.inc > 0) add(E_RESTART, s, 0, 0, D_RESTARTD);
            continue;
        }
        if (C->lazy_commit)
            for (int i = 0; i < rt::MAX_FIBERS; i++)
            {
                rt::Fiber* x = rt::fiber(i);
                if (x->st != rt::F_FREE && x->st != rt::F_DONE && x->st != rt::F_DEAD && x->group == (uint32_t)s && rt::enabled(i)) { add(E_CT, s, 0, 0, D_ENV); break; }
            }
        bool fresh = !S.ever_member && !S.joining;
        int k = 0, nh = 0;
        for (auto& t : S.timers)
        {
            if (t.hb) nh++;
            else if (!fresh)
            {
                add(E_TIMER, s, k, 0, D_TIMEOUT);
                if (C->ev_crash)
                    for (int c = 1; c <= 2; c++) add(E_TIMERC, s, k, c, D_CRASH);
                k++;
            }
        }
        if (nh && C->ev_hb) add(E_HB, s, 0, 0, D_HBD);
        if (C->ev_client && (S.lead || C->ev_client_any)) add(E_CL, s, C->batch, 0, D_CLIENT);
        if (C->ev_replicate && (S.lead || C->ev_client_any)) add(E_REPL, s, 0, 0, D_CLIENT);
        if (C->ev_addrm && (S.lead || C->ev_client_any))
        {
            for (int x = 1; x <= C->n; x++)
            {
                if (C->joinable >> x & 1) add(E_ADD, s, x, 0, D_MEMB);
                if (C->removable >> x & 1) add(E_RM, s, x, 0, D_MEMB);
            }
        }
        if (C->ev_crash) add(E_CRASH, s, 0, 0, D_CRASH);
        if (!S.pend.empty()) { add(E_SNAP, s, 0, 0, D_ENV); add(E_SNAPFAIL, s, 0, 0, D_FAULT); }
        if (C->ev_islead) add(E_ISL, s, 0, 0, D_ENV);
    }
    (void)any_dead;
    if (C->ev_part)
        for (size_t i = 0; i < C->parts.size(); i++)
            if (C->parts[i] != W->part) add(E_PART, i, 0, 0, D_PART);
    if (C->ev_tick)
    {
        add(E_TICK, C->el_hi / 10, 0, 0, D_TICKD);
        add(E_TICK, 2 * C->el_hi / 10 + 1, 0, 0, D_TICKD);
    }
}

// ------------------------------------------------------------------------------------------- hashing
static uint32_t* EPOCH;
struct Walk
{
    uint32_t epoch, next = 1;
    uint64_t h = 0x1234;
    rt::BlockHdr* q[4096];
    int qn = 0, qi = 0;
    void word(uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
    void ptr_(const void* p)
    {
        rt::BlockHdr* b = rt::block_of(p);
        if (!b) { word(0xDEADull); return; }
        if (b->tag == rt::TAG_HARNESS) { word(0x4A11ull); return; }
        if (b->epoch != epoch)
        {
            b->epoch = epoch;
            b->visit = next++;
            if (qn >= 4096) rt::abort_check("object graph too large");
            q[qn++] = b;
        }
        word(((uint64_t)b->visit << 32) | (uint32_t)((uint64_t)p - (uint64_t)(b + 1)));
        word(1);
    }
    void drain()
    {
        while (qi < qn)
        {
            rt::BlockHdr* b = q[qi++];
            const uint64_t* w = (const uint64_t*)(b + 1);
            size_t n = b->req / 8;
            word(b->req);
            for (size_t i = 0; i < n; i++)
            {
                uint64_t v = w[i];
                if (rt::in_arena((void*)v)) ptr_((void*)v);
                else if ((v >> 40) == 0x10 && (v >> 32) == 0x1001) word(0x57AC); // stack address
                else word(v);
            }
            if (b->req & 7)
            {
                uint64_t v = 0;
                memcpy(&v, w + n, b->req & 7);
                word(v);
            }
        }
    }
};
static uint64_t hs(const std::string& s, uint64_t h) { return H(s.data(), s.size(), h); }
uint64_t hash()
{
    uint64_t h = 99;
    auto mix = [&](uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 31; };
    static Walk* wk = (Walk*)rt::host_map(sizeof(Walk), false);
    new (wk) Walk;
    wk->epoch = ++*EPOCH;
    for (int s = 1; s <= C->n; s++)
    {
        Srv& S = W->s[s];
        mix(S.gone);
        mix(S.up | S.exited << 1 | S.removed << 2 | S.joining << 3 | S.ever_member << 4 | S.lead << 5 | S.lost_contact << 6 | S.pv_round << 7);
        mix(S.lead_term); mix(S.known * 8 + S.heard); mix(S.granted); mix(S.grant_term); mix(S.applied); mix(S.pv_ok);
        h = H(S.pre, sizeof S.pre, h);
        h = H(S.done, sizeof S.done, h);
        if (C->ev_tick)
            for (int k = 1; k <= C->n; k++) mix(S.ever_resp[k] ? rt::now_ns() - S.last_resp[k] : -1);
        Persist& P = S.P;
        mix(P.term); mix(P.vote); mix(P.has_state); mix(P.start); mix(P.log.size()); mix(P.base_chain); mix(P.conf_idx); mix(P.sm_last);
        for (size_t i = 0; i < P.log.size(); i++) mix(P.chain[i] ^ P.log[i].term);
        h = hs(P.conf, h);
        for (auto& x : P.sm) { mix(x.first); h = hs(x.second, h); }
        for (auto& x : P.snaps) { mix(x.idx); mix(x.term); h = hs(x.data, h); h = hs(x.conf, h); }
        mix(P.in.idx);
        for (bool b : P.in_have) mix(b);
        if (S.up && S.rs)
        {
            wk->ptr_(S.rs);
            wk->drain();
            for (auto& t : S.timers) { wk->word(t.hb); wk->ptr_(t.task.get()); wk->drain(); if (C->ev_tick) wk->word(t.deadline - rt::now_ns()); }
            for (auto& p : S.pend) { mix(p.s.idx); wk->ptr_(p.done); wk->drain(); }
            // threads
            for (int i = 0; i < rt::MAX_FIBERS; i++)
            {
                rt::Fiber* f = rt::fiber(i);
                if (f->st != rt::F_FREE && f->st != rt::F_DONE && f->st != rt::F_DEAD && f->group == (uint32_t)s) mix(f->st * 7 + rt::enabled(i));
            }
        }
    }
    for (auto* r : W->rpcs)
    {
        mix(r->src | r->dst << 4 | r->type << 8 | r->phase << 16 | r->held << 18 | r->orphan << 19 | r->racc << 20);
        mix(r->term); mix(r->lterm); mix(r->lidx); mix(r->commit); mix(r->rterm); mix(r->rnext);
        for (auto& e : r->ents) h = hs(e, h);
        if (r->handler) { wk->ptr_(r->handler); wk->drain(); }
    }
    mix(W->part); mix(W->parted); mix(W->nclient); mix(W->added_req | W->removed_req << 8);
    if (!quiescent()) mix(W->drain);
    h = H(W->leader_of, sizeof W->leader_of, h);
    h = H(W->vote_of, sizeof W->vote_of, h);
    h = H(W->com, sizeof W->com, h);
    h = H(W->match_of, sizeof W->match_of, h);
    mix(W->legit);
    h = H(W->chain_of, sizeof W->chain_of, h);
    h = H(W->conf_at, sizeof W->conf_at, h);
    mix(wk->h);
    return h;
}

// ------------------------------------------------------------------------------------------- creation
static void build(void*)
{
    rt::set_tag(rt::TAG_HARNESS);
    W = new World;
    std::string conf;
    {
        ptr<cluster_config> c = cs_new<cluster_config>();
        for (int i = 1; i <= C->members; i++) c->get_servers().push_back(cs_new<srv_config>(i, std::to_string(i)));
        conf = conf_str(*c);
    }
    for (int i = 1; i <= C->n; i++)
    {
        Srv& S = W->s[i];
        S.id = i;
        if (i <= C->members)
        {
            S.P.conf = conf;
            S.P.conf_mask = ((1u << C->members) - 1) << 1;
            S.ever_member = true;
        }
        else
        {
            ptr<cluster_config> c = cs_new<cluster_config>();
            c->get_servers().push_back(cs_new<srv_config>(i, std::to_string(i)));
            S.P.conf = conf_str(*c);
            S.P.conf_mask = 1u << i;
        }
    }
}
void create(const Cfg& c, uint64_t mask)
{
    if (!C)
    {
        C = new (rt::host_map(sizeof(Cfg) + 64, false)) Cfg;
        COV = (uint64_t*)rt::host_map(sizeof(uint64_t) * 64 * 64, true);
        EVP = (Ev*)rt::host_map(sizeof(Ev), false);
        EPOCH = (uint32_t*)rt::host_map(64, false);
    }
    *C = c;
    MASK = mask;
    int f = rt::spawn(build, nullptr, 0);
    rt::fiber(f)->detached = 1;
    rt::run(f);
    if (!W || rt::fiber(f)->st != rt::F_DONE) rt::abort_check("world construction failed");
    for (int i = 1; i <= c.n; i++)
    {
        Ev e;
        e.t = E_RESTART;
        e.a = i;
        *EVP = e;
        one(e);
    }
}
int current_leader()
{
    int r = 0;
    for (int s = 1; s <= C->n; s++)
        if (W->s[s].up && W->s[s].lead && (!r || W->s[s].P.term > W->s[r].P.term)) r = s;
    return r;
}
int finding() { return W->finding; }
bool alive(int s) { return W->s[s].up; }
bool is_lead(int s) { return W->s[s].lead; }
uint64_t term_of(int s) { return W->s[s].P.term; }
uint64_t last_idx(int s) { return W->s[s].P.next() - 1; }
uint64_t applied(int s) { return W->s[s].applied; }
int npending() { return W->rpcs.size(); }

// ------------------------------------------------------------------------------------------- stabilisation
bool stabilise(std::string& why, uint32_t down)
{
    cov(CV_STAB);
    for (int s = 1; s <= C->n; s++)
        if (down >> s & 1)
        {
            if (W->s[s].up)
            {
                Ev e;
                e.t = E_CRASH;
                e.a = s;
                apply(e);
            }
            W->s[s].gone = true;
        }
    W->stab = true;
    W->parted = false;
    W->part = 0;
    for (int s = 1; s <= C->n; s++)
        if (!W->s[s].up && !W->s[s].removed && !W->s[s].gone && W->s[s].inc > 0)
        {
            Ev e;
            e.t = E_RESTART;
            e.a = s;
            apply(e);
        }
    const int64_t t0 = rt::now_ns();
    const int64_t limit = t0 + (int64_t)60 * C->el_hi * 1000000;
    int64_t next_try = t0 + (int64_t)2 * C->el_hi * 1000000;
    std::string want;
    int64_t submitted = 0;
    int accepted_by = 0;
    for (auto* r : W->rpcs) { r->held = false; r->t = rt::now_ns(); }
    int steps = 0;
    const int64_t LAT = 1000000;
    while (rt::now_ns() < limit && steps < 6000)
    {
        steps++;
        if (W->finding) { W->stab = false; return true; }
        {
            // a majority of the newest configuration must be there
            int n = 0;
            for (int s = 1; s <= C->n; s++)
                if (W->s[s].up && W->s[s].ever_member && (!n || W->s[s].P.conf_idx > W->s[n].P.conf_idx)) n = s;
            uint32_t m = n ? W->s[n].P.conf_mask : 0, here = 0;
            for (int s = 1; s <= C->n; s++)
                if (!W->s[s].gone && !W->s[s].removed) here |= 1u << s;
            if (popc(m & here) * 2 <= popc(m)) { W->stab = false; return true; }
        }
        // done?
        if (!want.empty())
        {
            int l = current_leader();
            if (l)
            {
                uint32_t m = W->s[l].P.conf_mask;
                bool all = true;
                for (int s = 1; s <= C->n; s++)
                    if ((m >> s & 1) && !W->s[s].gone && !W->s[s].removed)
                    {
                        bool has = false;
                        if (W->s[s].up)
                            for (auto& x : W->s[s].P.sm)
                                if (x.second == want) has = true;
                        all = all && has && W->s[s].P.sm == W->s[l].P.sm;
                    }
                if (all) { W->stab = false; return true; }
            }
        }
        // next thing
        int64_t best = limit;
        Ev be;
        for (size_t i = 0; i < W->rpcs.size() && i < 200; i++)
        {
            Rpc* r = W->rpcs[i];
            int64_t t = r->t + LAT;
            if (t < best)
            {
                best = t;
                be.a = i;
                if (r->phase == 1) be.t = (r->orphan || !W->s[r->src].up) ? E_ERR : E_R;
                else be.t = !W->s[r->dst].up ? E_ERR : E_D;
            }
        }
        for (int s = 1; s <= C->n; s++)
        {
            Srv& S = W->s[s];
            if (!S.up) continue;
            if (!S.pend.empty()) { best = rt::now_ns(); be.t = E_SNAP; be.a = s; break; }
            if (C->lazy_commit) run_commit(s);
            bool fresh = !S.ever_member && !S.joining;
            int kh = 0, ko = 0;
            for (auto& t : S.timers)
            {
                if (!(fresh && !t.hb) && t.deadline < best)
                {
                    best = t.deadline;
                    be.t = t.hb ? E_HB1 : E_TIMER;
                    be.a = s;
                    be.b = t.hb ? kh : ko;
                }
                if (t.hb) kh++;
                else ko++;
            }
        }
        int l = current_leader();
        if (next_try < best && (want.empty() || rt::now_ns() - submitted > (int64_t)10 * C->el_hi * 1000000))
        {
            if (next_try > rt::now_ns()) rt::set_now_ns(next_try);
            next_try = rt::now_ns() + (int64_t)C->el_hi * 1000000;
            if (l)
            {
                uint32_t k = W->nclient;
                ulong n0 = W->s[l].P.next();
                Ev e;
                e.t = E_CL;
                e.a = l;
                e.b = 1;
                apply(e);
                if (W->s[l].P.next() > n0) { want = payload(k); submitted = rt::now_ns(); accepted_by = l; }
            }
            continue;
        }
        if (best >= limit) break;
        if (best > rt::now_ns()) rt::set_now_ns(best);
        if (be.t == E_D)
        {
            uint32_t seq = W->rpcs[be.a]->seq;
            apply(be);
            for (auto* r : W->rpcs)
                if (r->seq == seq) { r->held = false; r->t = rt::now_ns(); if (r->phase == 0) r->t = rt::now_ns(); }
            // request could not be processed (receiver died)
            for (size_t i = 0; i < W->rpcs.size(); i++)
                if (W->rpcs[i]->seq == seq && W->rpcs[i]->phase == 0 && W->s[W->rpcs[i]->dst].up) {}
        }
        else apply(be);
    }
    char b[200];
    snprintf(b, sizeof b, "after faults stop: leader=%d accepted_by=%d submitted=%s steps=%d virtual_ms=%ld", current_leader(), accepted_by, want.empty() ? "-" : want.c_str(), steps, (long)((rt::now_ns() - t0) / 1000000));
    why = b;
    violate(9, "cluster does not become available again (%s)", b);
    W->stab = false;
    return false;
}

// ------------------------------------------------------------------------------------------- text
static const char* EVN[] = {"none", "timer", "hb", "hb1", "xchg", "dlvreq", "dlvresp", "lost", "hold", "release", "client", "repl", "add", "rm", "part", "crash", "restart", "xchgcrash", "timercrash", "commit", "snapdone", "tick", "isleader", "dup", "snapfail"};
std::string ev_str(const Ev& e)
{
    char b[64];
    snprintf(b, sizeof b, "%s(%d,%d,%d)", e.t < E_MAX ? EVN[e.t] : "?", e.a, e.b, e.c);
    return b;
}
bool ev_parse(const std::string& s, Ev& e)
{
    char n[32];
    int a, b, c;
    if (sscanf(s.c_str(), "%31[a-z0-9](%d,%d,%d)", n, &a, &b, &c) != 4) return false;
    for (int i = 0; i < E_MAX; i++)
        if (!strcmp(EVN[i], n)) { e.t = i; e.a = a; e.b = b; e.c = c; return true; }
    return false;
}
std::string dump()
{
    std::string r;
    char b[400];
    for (int s = 1; s <= C->n; s++)
    {
        Srv& S = W->s[s];
        Persist& P = S.P;
        snprintf(b, sizeof b, "  S%d %s%s term=%lu vote=%d start=%lu applied=%lu conf=%lx@%lu log=[", s, S.up ? "up" : "DOWN", S.lead ? " LEADER" : "", P.term, P.vote, P.start, S.applied, (ulong)P.conf_mask, P.conf_idx);
        r += b;
        for (auto& e : P.log) { snprintf(b, sizeof b, "%lu:%s ", e.term, e.type == log_val_type::app_log ? e.data.c_str() : "conf"); r += b; }
        r += "] timers=";
        for (auto& t : S.timers) { snprintf(b, sizeof b, "%s%d ", t.hb ? "hb" : "t", t.delay); r += b; }
        r += "\n";
    }
    for (auto* x : W->rpcs)
    {
        snprintf(b, sizeof b, "  rpc %d->%d %s term=%lu prev=(%lu,%lu) n=%zu commit=%lu %s%s%s acc=%d rterm=%lu rnext=%lu\n", x->src, x->dst, mt(x->type), x->term, x->lidx, x->lterm, x->ents.size(), x->commit, x->phase ? "RESP" : "REQ", x->held ? " held" : "", x->orphan ? " orphan" : "", x->racc, x->rterm, x->rnext);
        r += b;
    }
    return r;
}
uint32_t rnd_next()
{
    if (!W) return 0;
    if (W->stab)
    {
        W->rnd = W->rnd * 1664525u + 1013904223u;
        uint32_t x = W->rnd ^ (W->rnd >> 15);
        return x * 2654435761u;
    }
    return 0x0A5A5A5Bu + (uint32_t)W->curp * 0x20000000u;
}
} // namespace world
extern "C" uint32_t rt_engine_next() { return world::rnd_next(); }
