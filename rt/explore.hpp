// Exhaustive bounded exploration of a System whose complete state lives in the rt arena.
// Depth first with checkpoints, per-class deviation budgets, a visited table shared by forked workers.
#pragma once
#include "rt.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace ex
{
const int NCLS = 16;
struct Choice
{
    uint8_t t = 0, a = 0, b = 0, c = 0;
    uint8_t cls = 0;
};
struct System
{
    virtual ~System() {}
    virtual void enabled(std::vector<Choice>& out) = 0; // empty: execution ends here
    virtual void apply(const Choice& c) = 0;
    virtual uint64_t hash() = 0;
    virtual const char* violation() = 0;        // text of a violation that happened so far, or nullptr
    virtual bool want_probe() { return false; } // run probe() in this (new) state
    virtual void probe() {}                     // may change the state, which is restored afterwards
    virtual void at_end() {}                    // execution ended (no choice enabled)
    virtual bool hash_here() { return true; }   // hash this state
    virtual std::string text(const Choice& c) = 0;
};
struct Opt
{
    int workers = 8;
    int budget[NCLS];
    int max_depth = 400;
    double seconds = 60;
    int table_bits = 24;
    bool dedupe = true;
    int total = 1 << 20; // bound on the sum of all budgeted deviations
    Opt()
    {
        for (int& x : budget) x = 1 << 20;
    }
};
extern int* worker; // number of the exploring process (0: the parent); not in static memory, which checkpoints restore
struct Result
{
    uint64_t states = 0, transitions = 0, ends = 0, probes = 0, depth_cut = 0, budget_cut = 0;
    int deepest = 0;
    bool exhaustive = true;
    bool viol = false;
    std::vector<Choice> path;
    std::string text;
    double wall = 0;
    std::vector<std::vector<Choice>> samples; // some complete executions
    int replayed = 0;                         // how many of them were executed again from the root, with the same final state
};
// the system must be in its root state
Result explore(System& s, const Opt& o);
// replay a path from the root state; text of the violation or ""; optional trace output
std::string replay(System& s, const std::vector<Choice>& path, FILE* trace);
// shorten a violating path by dropping events as long as a violation remains (root state restored afterwards)
} // namespace ex
