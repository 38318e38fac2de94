// Exploration of the cluster world: scenarios, driver, replay.
#include "world.hpp"
#include "../rt/explore.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/wait.h>

using namespace world;

struct Scen
{
    std::string name;
    Cfg cfg;
    std::vector<std::string> script; // set-up steps
    std::map<int, int> bud;          // quick budgets
    std::map<int, int> budt;         // thorough budgets (added / overriding)
    int total = 1 << 20, totalt = 0;
    bool probe = false, probe_down = false; // also with each server away
    double secs = 60, secst = 400;
};
static uint32_t m_(std::initializer_list<int> l)
{
    uint32_t r = 0;
    for (int x : l) r |= 1u << x;
    return r;
}
static std::vector<Scen> scenarios();

struct CSys : ex::System
{
    std::vector<EvC> tmp;
    bool probing = false, down = false;
    int nsrv = 0;
    rt::Ckpt* ck = nullptr;
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (world::finding()) return;
        world::enabled(tmp);
        for (auto& x : tmp)
        {
            ex::Choice c;
            c.t = x.e.t; c.a = x.e.a; c.b = x.e.b; c.c = x.e.c; c.cls = x.d;
            out.push_back(c);
        }
    }
    void apply(const ex::Choice& c) override
    {
        Ev e;
        e.t = c.t; e.a = c.a; e.b = c.b; e.c = c.c;
        world::apply(e);
    }
    uint64_t hash() override { return world::hash(); }
    const char* violation() override
    {
        int p;
        return world::violation(&p);
    }
    bool want_probe() override { return probing && !world::finding() && quiescent(); }
    void probe() override
    {
        std::string why;
        if (down)
            for (int s = 1; s <= nsrv; s++)
            {
                int p;
                ck = rt::save(ck);
                stabilise(why, 1u << s);
                if (world::violation(&p)) return;
                rt::restore(ck);
            }
        stabilise(why);
    }
    std::string text(const ex::Choice& c) override
    {
        Ev e;
        e.t = c.t; e.a = c.a; e.b = c.b; e.c = c.c;
        return ev_str(e);
    }
};
static void drain()
{
    std::vector<EvC> en;
    for (int i = 0; i < 2000 && !quiescent(); i++)
    {
        world::enabled(en);
        if (en.empty() || en[0].d != D_DEFAULT) return;
        world::apply(en[0].e);
    }
}
static bool script(const std::vector<std::string>& v)
{
    for (auto& l : v)
    {
        char c[32];
        int a = 0, b = 0;
        int n = sscanf(l.c_str(), "%31s %d %d", c, &a, &b);
        if (n < 1) continue;
        std::string k = c;
        Ev e;
        if (k == "elect") { e.t = E_TIMER; e.a = a; world::apply(e); drain(); if (!is_lead(a)) return false; }
        else if (k == "timer") { e.t = E_TIMER; e.a = a; e.b = b; world::apply(e); drain(); }
        else if (k == "client") { e.t = E_CL; e.a = a; e.b = n > 2 ? b : 1; world::apply(e); drain(); }
        else if (k == "hb") { e.t = E_HB; e.a = a; world::apply(e); drain(); }
        else if (k == "crash") { e.t = E_CRASH; e.a = a; world::apply(e); drain(); }
        else if (k == "restart") { e.t = E_RESTART; e.a = a; world::apply(e); drain(); }
        else if (k == "part") { e.t = E_PART; e.a = a; world::apply(e); drain(); }
        else if (k == "add") { e.t = E_ADD; e.a = a; e.b = b; world::apply(e); drain(); }
        else if (k == "rm") { e.t = E_RM; e.a = a; e.b = b; world::apply(e); drain(); }
        else rt::abort_check(("bad script line " + l).c_str());
    }
    return true;
}
static std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32) { r += ' '; continue; }
        r += c;
    }
    return r;
}

int main(int argc, char** argv)
{
    rt::init();
    // cluster run PROP TIER REPLAYDIR SCEN | cluster replay PROP FILE | cluster list
    std::vector<Scen> sc = scenarios();
    if (argc > 1 && !strcmp(argv[1], "list"))
    {
        for (auto& s : sc) printf("%s\n", s.name.c_str());
        return 0;
    }
    if (argc > 5 && !strcmp(argv[1], "run"))
    {
        int prop = atoi(argv[2]);
        bool thorough = !strcmp(argv[3], "thorough");
        std::string dir = argv[4];
        Scen* s = nullptr;
        for (auto& x : sc)
            if (x.name == argv[5]) s = &x;
        if (!s) { fprintf(stderr, "no scenario %s\n", argv[5]); return 3; }
        if (getenv("VERIF_FOLLOW")) follow_findings = true;
        uint64_t mask = prop ? 1ull << prop : ~0ull;
        create(s->cfg, mask);
        bool ok = script(s->script);
        CSys sys;
        sys.probing = s->probe && (prop == 9 || prop == 0);
        sys.down = s->probe_down;
        sys.nsrv = s->cfg.n;
        ex::Opt o;
        for (auto& b : s->bud) o.budget[b.first] = b.second;
        o.total = s->total;
        o.seconds = s->secs;
        if (thorough)
        {
            for (auto& b : s->budt) o.budget[b.first] = b.second;
            if (s->totalt) o.total = s->totalt;
            o.seconds = s->secst;
            o.table_bits = 27;
        }
        if (getenv("VERIF_SECS")) o.seconds = atof(getenv("VERIF_SECS"));
        if (getenv("VERIF_WORKERS")) o.workers = atoi(getenv("VERIF_WORKERS"));
        ex::Result r = ex::explore(sys, o);
        std::string bounds;
        const char* dn[] = {"env", "default", "message_fault", "crash", "client", "partition", "timeout", "membership", "heartbeat", "tick", "restart"};
        for (int i = 0; i < D_MAX; i++)
            if (o.budget[i] < (1 << 19)) bounds += std::string(bounds.empty() ? "" : ",") + dn[i] + "<=" + std::to_string(o.budget[i]);
        if (o.total < (1 << 19)) bounds += ",total<=" + std::to_string(o.total);
        std::string cv;
        for (int i = 0; i < cov_n(); i++)
        {
            if (i) cv += ",";
            cv += "\"" + std::string(cov_name(i)) + "\":" + std::to_string(cov_count(i));
        }
        std::string rp;
        if (r.viol)
        {
            rp = dir + "/C" + (prop < 10 ? "0" : "") + std::to_string(prop) + "-" + s->name + ".replay";
            FILE* f = fopen(rp.c_str(), "w");
            if (f)
            {
                fprintf(f, "# %s\ncluster %s %d\n", r.text.c_str(), s->name.c_str(), prop);
                for (auto& c : r.path) fprintf(f, "%d %d %d %d\n", c.t, c.a, c.b, c.c);
                fclose(f);
            }
        }
        // confirm on a fresh replay from the root
        std::string again;
        std::string steps;
        if (r.viol)
        {
            again = ex::replay(sys, r.path, nullptr);
            for (auto& c : r.path) steps += sys.text(c) + " ";
        }
        std::string smp;
        for (size_t i = 0; i < r.samples.size(); i += 2)
        {
            smp += std::string(smp.empty() ? "" : ",") + "\"";
            for (auto& c : r.samples[i]) smp += jesc(sys.text(c)) + " ";
            smp += "\"";
        }
        printf("RESULT {\"scenario\":\"%s\",\"script_ok\":%s,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"probes\":%lu,\"deepest\":%d,\"exhaustive\":%s,\"bounds\":\"%s\",\"wall\":%.2f,\"viol\":\"%s\",\"confirmed\":%s,\"replay\":\"%s\",\"steps\":\"%s\",\"replayed\":%d,\"samples\":[%s],\"cov\":{%s}}\n", s->name.c_str(), ok ? "true" : "false", r.states, r.transitions, r.ends, r.probes, r.deepest, r.exhaustive ? "true" : "false", bounds.c_str(), r.wall, jesc(r.text).c_str(), r.viol && again == r.text ? "true" : "false", rp.c_str(), jesc(steps).c_str(), r.replayed, smp.c_str(), cv.c_str());
        fflush(stdout);
        _exit(r.viol ? 1 : 0);
    }
    if (argc > 2 && !strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[2], "r");
        if (!f) return 3;
        char line[512], nm[64];
        int prop = 0;
        std::vector<ex::Choice> path;
        bool head = false;
        while (fgets(line, sizeof line, f))
        {
            if (line[0] == '#') continue;
            if (!head && sscanf(line, "cluster %63s %d", nm, &prop) == 2) { head = true; continue; }
            int a, b, c, d;
            if (sscanf(line, "%d %d %d %d", &a, &b, &c, &d) == 4)
            {
                ex::Choice x;
                x.t = a; x.a = b; x.b = c; x.c = d;
                path.push_back(x);
            }
        }
        fclose(f);
        Scen* s = nullptr;
        for (auto& x : sc)
            if (x.name == nm) s = &x;
        if (!s) return 3;
        if (getenv("VERIF_FOLLOW")) follow_findings = true;
        create(s->cfg, prop ? 1ull << prop : ~0ull);
        script(s->script);
        printf("root:\n%s", dump().c_str());
        CSys sys;
        sys.down = s->probe_down;
        sys.nsrv = s->cfg.n;
        std::string t;
        for (auto& c : path)
        {
            printf("%s\n", c.t == 255 ? "probe (fault free continuation)" : sys.text(c).c_str());
            fflush(stdout);
            std::vector<ex::Choice> one{c};
            t = ex::replay(sys, one, nullptr);
            printf("%s", dump().c_str());
            if (!t.empty()) break;
        }
        printf("%s\n", t.empty() ? "no violation" : t.c_str());
        fflush(stdout);
        _exit(t.empty() ? 0 : 1);
    }
    fprintf(stderr, "usage\n");
    return 3;
}

static std::vector<Scen> scenarios()
{
    std::vector<Scen> v;
    auto add = [&](const Scen& s) { v.push_back(s); };
    const std::vector<uint32_t> iso3 = {0, m_({1}), m_({2}), m_({3})};
    {
        Scen s;
        s.name = "elect";
        s.bud = {{D_TIMEOUT, 3}, {D_FAULT, 2}, {D_CLIENT, 1}, {D_HBD, 1}};
        s.budt = {{D_TIMEOUT, 4}, {D_FAULT, 3}};
        add(s);
    }
    {
        Scen s;
        s.name = "repl";
        s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 2}, {D_CLIENT, 2}, {D_HBD, 1}};
        s.budt = {{D_TIMEOUT, 3}, {D_FAULT, 3}};
        s.probe = true;
        add(s);
    }
    {
        Scen s;
        s.name = "part";
        s.script = {"elect 1"};
        s.cfg.ev_part = true;
        s.cfg.parts = iso3;
        s.bud = {{D_TIMEOUT, 3}, {D_FAULT, 0}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 3}};
        s.budt = {{D_TIMEOUT, 4}, {D_HBD, 2}, {D_PART, 3}};
        s.totalt = 11;
        s.probe = true;
        add(s);
    }
    {
        Scen s;
        s.name = "crash";
        s.script = {"elect 1", "client 1"};
        s.cfg.ev_crash = true;
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 1}, {D_HBD, 1}, {D_CRASH, 2}, {D_RESTARTD, 2}};
        s.total = 6;
        s.totalt = 8;
        s.probe = true;
        add(s);
    }
    for (int d = 0; d < 2; d++)
    {
        Scen s;
        s.name = d ? "prevote-def" : "prevote";
        s.cfg.prevote = true;
        s.cfg.defensive = d;
        s.bud = {{D_TIMEOUT, 4}, {D_FAULT, 2}, {D_CLIENT, 1}, {D_HBD, 1}};
        s.total = 6;
        s.totalt = 8;
        s.probe = true;
        add(s);
        s.name = d ? "prevote-def-part" : "prevote-part";
        s.cfg.ev_part = true;
        s.cfg.ev_crash = true;
        s.cfg.parts = iso3;
        s.bud = {{D_TIMEOUT, 5}, {D_FAULT, 0}, {D_CLIENT, 2}, {D_HBD, 2}, {D_PART, 3}, {D_CRASH, 1}, {D_RESTARTD, 1}};
        s.total = 8;
        s.totalt = 10;
        add(s);
    }
    for (int d = 0; d < 6; d++)
    {
        // the cluster becomes available again with any one server away for good
        Scen s;
        s.name = "away" + std::to_string(d);
        s.cfg.prevote = d >= 2 && d <= 3;
        s.cfg.defensive = d == 3;
        s.cfg.ev_crash = d == 4;
        s.cfg.ev_part = d == 1 || d == 5;
        s.cfg.snap_dist = d == 5 ? 2 : 0;
        s.cfg.snap_block = 5;
        s.cfg.parts = iso3;
        if (d && d != 3) s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, d == 3 ? 4 : 3}, {D_FAULT, 2}, {D_CLIENT, 1}, {D_HBD, 1}, {D_PART, 2}, {D_CRASH, 1}, {D_RESTARTD, 1}};
        if (d == 5) s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 4}, {D_HBD, 1}, {D_PART, 2}};
        s.total = d == 5 ? 6 : 5;
        s.totalt = s.total + 1;
        s.probe = s.probe_down = true;
        add(s);
    }
    {
        Scen s;
        s.name = "prevote-five";
        s.cfg.n = s.cfg.members = 5;
        s.cfg.prevote = true;
        s.bud = {{D_TIMEOUT, 3}, {D_FAULT, 2}, {D_CLIENT, 0}, {D_HBD, 0}};
        s.total = 5;
        s.totalt = 6;
        add(s);
        s.name = "prevote-five-part";
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1, 2})};
        s.bud = {{D_TIMEOUT, 4}, {D_FAULT, 2}, {D_CLIENT, 0}, {D_HBD, 0}, {D_PART, 2}};
        s.total = 5;
        s.totalt = 6;
        add(s);
    }
    for (int k = 0; k < 4; k++)
    {
        // snapshots: distance 2, with and without reserved entries, blocks of 4 bytes
        Scen s;
        s.name = "snap" + std::to_string(k);
        s.cfg.snap_dist = k == 3 ? 1 : 2;
        s.cfg.reserved = k == 1 ? 1 : k == 2 ? 3 : 0;
        s.cfg.snap_block = k == 1 ? 3 : k == 2 ? 64 : 5;
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({3}), m_({1})};
        s.script = {"elect 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 4}, {D_HBD, 1}, {D_PART, 2}};
        s.total = 8;
        s.totalt = 9;
        s.probe = true;
        add(s);
        s.name = "snaplate" + std::to_string(k); // two late or lost messages
        s.bud[D_FAULT] = 2;
        s.total = 7;
        s.totalt = 8;
        add(s);
        s.totalt = 9;
        s.name = "snapcrash" + std::to_string(k);
        s.cfg.ev_crash = true;
        s.cfg.sm_volatile = k == 1;
        s.bud = {{D_TIMEOUT, 1}, {D_FAULT, 0}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 2}, {D_CRASH, 1}, {D_RESTARTD, 1}};
        s.total = 8;
        add(s);
        s.name = "snapasync" + std::to_string(k);
        s.cfg.snap_async = true;
        s.bud = {{D_TIMEOUT, 1}, {D_FAULT, 1}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 2}, {D_CRASH, 1}, {D_RESTARTD, 1}};
        s.total = 6;
        s.totalt = 7;
        add(s);
    }
    {
        Scen s;
        s.name = "memb-add";
        s.cfg.n = 4;
        s.cfg.members = 3;
        s.cfg.ev_addrm = true;
        s.cfg.joinable = m_({4});
        s.cfg.removable = m_({3});
        s.cfg.stop_gap = 1;
        s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 2}, {D_CLIENT, 1}, {D_HBD, 1}, {D_MEMB, 2}};
        s.total = 6;
        s.totalt = 8;
        s.probe = true;
        add(s);
        s.name = "memb-snap";
        s.cfg.snap_dist = 2;
        s.cfg.snap_block = 6;
        s.script = {"elect 1", "client 1", "client 1", "client 1"};
        add(s);
        s.name = "memb-crash";
        s.cfg.snap_dist = 0;
        s.cfg.ev_crash = true;
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 1}, {D_HBD, 1}, {D_MEMB, 2}, {D_CRASH, 1}, {D_RESTARTD, 1}};
        s.total = 5;
        s.totalt = 7;
        add(s);
        s.name = "memb-1to2";
        s.cfg = Cfg();
        s.cfg.n = 2;
        s.cfg.members = 1;
        s.cfg.ev_addrm = true;
        s.cfg.joinable = m_({2});
        s.cfg.removable = m_({2});
        s.cfg.stop_gap = 1;
        s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 3}, {D_CLIENT, 2}, {D_HBD, 2}, {D_MEMB, 2}};
        s.total = 8;
        s.totalt = 11;
        add(s);
        s.name = "memb-rm";
        s.cfg.n = 3;
        s.cfg.members = 3;
        s.cfg.joinable = 0;
        s.cfg.removable = m_({1, 2, 3});
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1}), m_({3})};
        s.bud = {{D_TIMEOUT, 3}, {D_FAULT, 1}, {D_CLIENT, 1}, {D_HBD, 2}, {D_MEMB, 2}, {D_PART, 2}};
        s.total = 7;
        s.totalt = 8;
        add(s);
    }
    {
        Scen s;
        s.name = "lease";
        s.cfg.batch = 2;
        s.cfg.ev_tick = true;
        s.cfg.ev_islead = true;
        s.cfg.ev_replicate = true;
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1})};
        s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 2}, {D_CLIENT, 2}, {D_HBD, 2}, {D_TICKD, 3}, {D_PART, 2}};
        s.total = 6;
        s.totalt = 7;
        add(s);
    }
    for (int n = 2; n <= 5; n++)
    {
        if (n == 3) continue;
        Scen s;
        s.name = "lease" + std::to_string(n); // clusters of other sizes
        s.cfg.n = s.cfg.members = n;
        s.cfg.batch = n == 4 ? 3 : 1;
        s.cfg.ev_tick = true;
        s.cfg.ev_islead = true;
        s.cfg.ev_replicate = true;
        s.cfg.ev_hb = false;
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1}), m_({1, 2}), m_({1, 2, 3})};
        s.cfg.parts.resize(n < 4 ? 2 : n);
        s.script = {"elect 1", "client 1"};
        s.bud = {{D_TIMEOUT, 0}, {D_FAULT, n == 2 ? 2 : 1}, {D_CLIENT, 2}, {D_TICKD, 3}, {D_PART, 2}};
        s.total = 5;
        s.totalt = 6;
        add(s);
    }
    {
        Scen s;
        s.name = "client";
        s.cfg.ev_client_any = true;
        s.cfg.ev_replicate = true;
        s.cfg.batch = 3;
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1})};
        s.script = {"elect 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 2}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 2}};
        s.total = 6;
        s.totalt = 7;
        s.probe = true;
        add(s);
        s.name = "client-new"; // calls that are forwarded to one leader after the other
        s.script = {"elect 1", "client 3", "elect 2", "client 3"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 2}, {D_HBD, 1}, {D_PART, 2}};
        add(s);
        s.script = {"elect 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 2}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 2}};
        s.name = "client-lazy";
        s.bud[D_FAULT] = 1;
        s.total = 4;
        s.totalt = 5;
        s.cfg.lazy_commit = true;
        add(s);
    }
    {
        Scen s;
        s.name = "five";
        s.cfg.n = s.cfg.members = 5;
        s.cfg.ev_part = true;
        s.cfg.parts = {0, m_({1, 2}), m_({1, 3}), m_({3, 4, 5}), m_({5}), m_({1, 5})};
        s.script = {"elect 1"};
        s.bud = {{D_TIMEOUT, 2}, {D_FAULT, 1}, {D_CLIENT, 3}, {D_HBD, 1}, {D_PART, 3}};
        s.budt = {{D_TIMEOUT, 3}};
        s.total = 6;
        s.totalt = 8;
        s.probe = true;
        add(s);
    }
    return v;
}
