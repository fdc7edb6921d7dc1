// Controlled scheduler: real threads, exactly one runs at a time; the running one may be preempted at every mutex operation, at markers of the
// harness and (granularity 1) at every edge of the compiled code. ctl.cpp is compiled without instrumentation, so that the hand-over between
// threads creates no happens-before edge: ThreadSanitizer sees only the synchronisation of the code under test.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stddef.h>
extern "C" {
struct SchedDec { int n; int to; };                 // after n points switch to the to-th other runnable thread
struct SchedMutex { int owner; unsigned magic; };   // owner: thread id + 2, 0 free
void sched_run(int nthreads, void (*body)(int, void*), void* arg, const SchedDec* d, int nd, int gran); // runs body(tid) on each thread under the schedule, returns when all are done
int sched_used();              // decisions consumed by the last run
long sched_points(int tid);    // points passed by that thread in the last run
long sched_total_preempts();
void sched_mark();             // a point
long sched_now();              // increases with every call; one order for all threads
void sched_quiet(int d);       // nests: no preemption at edges while positive
int sched_held();              // mutexes held by the calling thread
int sched_self();              // 0.. in a controlled thread, -1 in the main thread
void sched_m_init(SchedMutex*); void sched_m_destroy(SchedMutex*); void sched_m_lock(SchedMutex*); int sched_m_trylock(SchedMutex*); void sched_m_unlock(SchedMutex*);
int sched_m_owner(SchedMutex*); // thread id of the holder + 2, 0 free
void sched_rules(int no_nested_lock);    // 1: locking while holding another mutex is a violation
void sched_expect_no_wait(int on);       // violation if the calling thread has to wait
long sched_lock_count(); long sched_pthread_count(); void sched_reset_counts();
void sched_fail(const char* msg) __attribute__((noreturn)); // prints FAIL and ends the process
void sched_where(const char* what);      // what the calling thread is doing, for messages
int nt_add(int* p, int d); int nt_get(const int* p); // unsynchronised, invisible to ThreadSanitizer
}
struct SchedQuiet { SchedQuiet() { sched_quiet(1); } ~SchedQuiet() { sched_quiet(-1); } };
#endif
