// Common driver of the component harnesses: run/replay/list with the result line run.py reads.
// Violations live in static memory (part of every checkpoint).
#pragma once
#include "explore.hpp"
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace hx
{
struct Bad { bool set; char why[400]; };
Bad& bad();
__attribute__((format(printf, 1, 2))) void fail(const char* f, ...); // first one is kept
const char* failed();                                               // text or nullptr
void cov(const char* what);                                         // count that something was reached
// run fn on a fiber of its own, without scheduling points, until it has returned; faults become violations
void in_world(const std::function<void()>& fn, const char* what);

struct Setup
{
    std::unique_ptr<ex::System> sys;
    ex::Opt opt;
    std::string bounds;
};
typedef std::function<bool(const std::string& scen, int prop, bool thorough, Setup& out)> Make;
int main(int argc, char** argv, const char* target, const std::vector<std::string>& names, const Make& make);

// ---- threads ---------------------------------------------------------------------------------------
// A world of fibers that run real thread code: at every scheduling point the explorer picks who goes on.
// Classes: 0 free (the running thread goes on, or it cannot), 1 preemption, 2 spurious wake-up, 3 time passes early.
enum { T_RUN = 1, T_SPUR = 2, T_TIME = 3 };
struct ThreadSys : ex::System
{
    // start() spawned the fibers; finish() is called when no thread can go on
    std::function<void()> finish;
    std::function<uint64_t()> extra_hash;
    std::function<std::string(int)> fname;
    std::vector<std::pair<const void*, size_t>> regions; // static memory that is part of the state
    bool spurious = false, time = false;
    int64_t horizon = -1; // time does not pass beyond that
    static bool live(int fiber);
    bool current_enabled(); // the thread that ran last could go on
    bool any_enabled();
    bool time_can_pass();
    void enabled(std::vector<ex::Choice>& out) override;
    void apply(const ex::Choice& c) override;
    uint64_t hash() override;
    const char* violation() override { return failed(); }
    void at_end() override { if (finish && !failed()) finish(); }
    // a state in which only a spurious wake-up could happen is final too: nobody may rely on one
    bool want_probe() override { return spurious && !failed() && !any_enabled() && !time_can_pass(); }
    void probe() override { at_end(); }
    std::string text(const ex::Choice& c) override;
};
void threads_reset();
int running();               // fiber that ran last, -1 none
bool all_done();             // every fiber has finished
std::string stuck();         // description of the threads that have not finished
} // namespace hx
