// A cluster of real raft_servers over a deterministic environment.
#pragma once
#include "../rt/rt.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace world
{
const int MAXS = 5;   // servers 1..MAXS
const int MAXT = 28;  // terms
const int MAXI = 28;  // log indices

struct Cfg
{
    int n = 3;               // servers that exist
    int members = 3;         // initial members: 1..members
    bool prevote = false, defensive = false;
    int snap_dist = 0, snap_block = 0, reserved = 0;
    int max_append = 100, sync_batch = 1000, stop_gap = 10;
    bool sm_volatile = false;   // state machine falls back to its last snapshot on restart
    bool snap_async = false;    // snapshot completion is an event of its own
    bool lazy_commit = false;   // committing thread runs only as an event
    bool two_phase = false;     // message level: request and response delivery are separate events
    // alphabet
    bool ev_timeout = true, ev_hb = true, ev_client = true, ev_client_any = false, ev_replicate = false;
    bool ev_part = false, ev_crash = false, ev_addrm = false, ev_tick = false, ev_timers_other = true;
    bool ev_islead = false;
    uint32_t joinable = 0; // mask of servers that may be added
    uint32_t removable = 0;
    std::vector<uint32_t> parts; // partition masks
    int el_lo = 200, el_hi = 400, hb = 100, backoff = 50;
    int batch = 1;            // entries per client call
    int payload = 0;          // extra payload bytes
    // single real server mode: only `real` servers are constructed, others are simulated by the driver
};

enum EvT : uint8_t
{
    E_NONE = 0,
    E_TIMER,   // a = server, b = k-th non heartbeat timer
    E_HB,      // a = server: fire all heartbeat timers
    E_HB1,     // a = server, b = k-th heartbeat timer
    E_X,       // a = rpc: request and response delivered
    E_D,       // a = rpc: request delivered, response held
    E_R,       // a = rpc: response delivered
    E_ERR,     // a = rpc: lost (whatever is in flight), sender gets an error
    E_HOLD,    // a = rpc: held
    E_REL,     // a = rpc: released
    E_CL,      // a = server, b = number of entries
    E_REPL,    // a = server
    E_ADD,     // a = server asked, b = server to add
    E_RM,      // a = server asked, b = server to remove
    E_PART,    // a = index into parts
    E_CRASH,   // a = server
    E_RESTART, // a = server
    E_XC,      // a = rpc, b = k: request delivered, receiver crashes right before its k-th persistence call
    E_TIMERC,  // a = server, b = timer, c = k: crash right before the k-th persistence call
    E_CT,      // a = server: run the committing thread
    E_SNAP,    // a = server: complete an asynchronous snapshot
    E_TICK,    // a*10 ms
    E_ISL,     // a = server: query is_leader
    E_DUP,     // a = rpc: request delivered a second time later (network duplicate) -> adds an orphan copy
    E_SNAPFAIL,
    E_MAX
};
struct Ev
{
    uint8_t t = 0, a = 0, b = 0, c = 0;
};
// deviation classes with separate budgets
enum Dev { D_ENV = 0, D_DEFAULT, D_FAULT, D_CRASH, D_CLIENT, D_PART, D_TIMEOUT, D_MEMB, D_HBD, D_TICKD, D_RESTARTD, D_MAX };

std::string ev_str(const Ev& e);
bool ev_parse(const std::string& s, Ev& e);

void create(const Cfg& c, uint64_t prop_mask); // host: build the world
const Cfg& cfg();
void apply(const Ev& e);                 // host
struct EvC { Ev e; Dev d; };
void enabled(std::vector<EvC>& out);     // host: first is the default
bool quiescent();
uint64_t hash();                         // host
const char* violation(int* prop);        // host: first recorded violation or nullptr
void clear_violations();
std::string dump();

// run the timed, fault free continuation; true if the cluster became available again
bool stabilise(std::string& why, uint32_t down = 0); // down: servers that stay away

// direct access for scripted set-ups (host side reads only)
extern bool follow_findings;
int finding();                  // number of the known finding whose history began, or 0
int current_leader();           // a live server that acts as leader with the highest term, or 0
bool alive(int s);
bool is_lead(int s);
uint64_t term_of(int s);
uint64_t last_idx(int s);
uint64_t applied(int s);
int npending();
uint64_t cov_count(int k);
const char* cov_name(int k);
int cov_n();
} // namespace world
