// Deterministic thread scheduler: real threads, one baton.  Instrumented memory accesses, lock operations and
// service calls of the code under test are the only points where the baton can move, and the plan decides each move.
#ifndef SIM_THREADS_H
#define SIM_THREADS_H
#include "core.h"
namespace hx {
enum { SW_ANY = 0, SW_HOT = 1, SW_CALL = 2, SW_END = 3, SW_KINDS = 4 };
struct Switch { int64_t delta, target; };            // after delta further points of the kind, run the target-th other thread
struct Schedule { std::vector<Switch> q[SW_KINDS]; };
enum { MAX_THREADS = 6 };
// takes "sw kind delta target" operations out of a plan
Schedule schedule_of(const Plan &p);
void gen_schedule(Plan &p, Rng &r, int threads);
// runs the bodies to completion under the schedule
void run_threads(const std::vector<std::function<void()>> &bodies, const Schedule &s);
void sched_point(int kind);                          // a choice point of the calling simulated thread
int sched_self();                                    // -1 outside a simulated thread
bool sched_active();
// memory of inputs that several threads read: nobody may store to it
void readonly_range(const void *p, size_t n, const char *what);
// memory shared by writers of disjoint parts: the predicate says whether the calling thread may store to an element now
void guarded_range(const void *p, size_t n, bool (*may)(const void *base, size_t byte, size_t n));
void clear_ranges();
}
#endif
