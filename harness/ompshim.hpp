// Controlled replacement of the OpenMP runtime and of the thread sanitizer's runtime: team members are fibers, the harness decides
// who runs at every yield point, and every memory access of instrumented code inside a parallel region is recorded per team member.
#pragma once
#include <functional>
namespace ompshim {
extern int team;                                   // team size of parallel regions (1 = sequential)
extern std::function<int(int nrunnable)> pick;     // who of the runnable members goes on; called at every scheduling point
extern long regions,regions_par,accesses,switches; // parallel regions entered, those with more than one member, recorded accesses, scheduling points
int self();                                        // member running now, -1 outside of parallel regions
void yield();                                      // scheduling point (no effect outside of parallel regions)
struct Mute { Mute(); ~Mute(); };                  // accesses of the current member are not recorded (harness code)
const char *race();                                // first conflicting access found, or null; cleared by reset()
void reset();
}
