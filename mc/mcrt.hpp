// Stateless model checker for unmodified C++ thread code.
// The program under test is compiled with -fsanitize=thread and linked with
// mcrt.cpp instead of the sanitizer's runtime.
#ifndef MCRT_HPP
#define MCRT_HPP
#include <cstddef>
#include <cstdint>

struct McScenario {
    const char* name;
    void (*run)();          // executed on the main thread of every execution
    int preempt = 2;        // bound on preemptive switches, -1: none
    int spurious = 0;       // spurious wake-ups / early timeouts
    int create_fail = 0;    // failing thread creations
    bool via_exit = true;   // leave through exit(), with static destructors
    double budget = 60;     // seconds, safety limit
    bool must_fail = false; // self test: a violation is expected
    bool deep = false;      // thorough tier only
    bool delay = false;     // the bound is on all departures from the default
                            // schedule, not only on preemptions
};
// runs all scenarios selected on the command line; protocol of h.hpp
int mc_main(int argc, char** argv, McScenario* s, size_t n);

extern "C" {
// callable from scenarios (on any managed thread)
void mc_fail(const char* fmt, ...) __attribute__((noreturn));
void mc_outcome(uint64_t h);        // must be the same in every execution
void mc_note(uint64_t h);           // counts distinct outcomes
int mc_tid();                       // number of the current thread
int mc_choose(int n);               // nondeterministic choice of the harness
void mc_point();                    // explicit scheduling point
void mc_quiet(bool on);             // set-up: one schedule only
}
#endif
