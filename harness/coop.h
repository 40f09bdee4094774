// Deterministic scheduler for the concurrency property.  Exactly one thread
// runs at a time; control moves only at scheduling points (lock operations of
// the code under test and operations of the base file system), as decided by
// the generated schedule.  It is built without ThreadSanitizer and uses raw
// futexes, so its own synchronisation does not hide races of the code.
#ifndef SCHED_H
#define SCHED_H
#include <vector>
#include <functional>
#include <cstdint>
namespace sched {
// schedule: number of scheduling points to run before each preemption, and the target
struct Preempt { unsigned after; unsigned to; };
void run(std::vector<std::function<void()>> threads, std::vector<Preempt> plan);
void point();                 // scheduling point
int self();                   // index of the running thread, -1 outside of run
unsigned long stamp();        // increasing number
unsigned held();              // locks held by this thread
unsigned switches();          // context switches of the last run
unsigned preemptions();       // switches away from a runnable thread
const char *problem();        // lock misuse seen, or NULL
void reset();
void check_quiet();           // aborts when locks are still held
}
#endif
