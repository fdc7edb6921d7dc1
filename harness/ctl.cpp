#include "ctl.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unordered_map>
extern "C" {
void __tsan_acquire(void*) __attribute__((weak)); void __tsan_release(void*) __attribute__((weak));
int __real_pthread_mutex_lock(pthread_mutex_t*); 
}
enum { MAXT = 4 };
enum St { IDLE, READY, BLOCKED, DONE };
struct Th { int word; St st; SchedMutex* on; pthread_t p; int held; long points; int quiet; SchedMutex* hm[16]; const char* where; int nowait, nwtries; long nwedges; };
static Th th[MAXT + 1]; // th[MAXT] is the main thread
static int nth, cur = -1, started; static bool active; static const SchedDec* decs; static int nd, di, gran; static long cnt, since, total, tick, preempts; 
static void (*body)(int, void*); static void* barg; static int mainword; static int nested_rule; static long nlocks, npthread; static char token[2][64];
static __thread int self = -1; static __thread int in_sched;
static inline void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static inline void rel(void* p) { if (__tsan_release) __tsan_release(p); }
static void fwait(int* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static Th& me() { return th[self < 0 ? MAXT : self]; }
extern "C" void sched_fail(const char* msg) { printf("FAIL %s (thread %d", msg, self); for (int i = 0; i < nth; ++i) if (th[i].where) printf(", t%d: %s", i, th[i].where); printf(")\n"); fflush(stdout); _exit(3); }
static int pick(int choice, bool others) { int l[MAXT], n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == READY && !(others && i == cur)) l[n++] = i; if (!n) return -1; return l[(choice < 0 ? 0 : choice) % n]; }
static void give(int t) { int s = self; cur = t; since = 0; fwake(&th[t].word); fwait(&th[s].word); }
static void point() {
  Th& t = th[self]; ++t.points; ++cnt; ++since; 
  if (++total > 30000000) sched_fail("no progress: the threads keep running without finishing");
  if (di < nd) { if (cnt >= decs[di].n) { int to = decs[di].to; ++di; cnt = 0; int n = pick(to, true); if (n >= 0) { ++preempts; give(n); } } }
  else if (since > 200000) { int n = pick((cur + 1) % nth, true); if (n >= 0) give(n); since = 0; }
}
extern "C" {
void sched_mark() { if (!active || self < 0 || in_sched) return; in_sched = 1; point(); in_sched = 0; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (active && self >= 0 && !in_sched && th[self].nowait && ++th[self].nwedges > 5000) sched_fail("try_lock waits: it keeps running while the mutex is held"); if (!active || self < 0 || in_sched || gran == 0 || th[self].quiet > 0) return; in_sched = 1; point(); in_sched = 0; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
long sched_now() { return ++tick; }
void sched_quiet(int d) { me().quiet += d; }
int sched_held() { return me().held; }
int sched_self() { return self; }
int sched_used() { return di; }
long sched_points(int t) { return th[t].points; }
long sched_total_preempts() { return preempts; }
void sched_where(const char* w) { me().where = w; }
int nt_add(int* p, int d) { return *p += d; }
int nt_get(const int* p) { return *p; }
long sched_lock_count() { return nlocks; } long sched_pthread_count() { return npthread; } void sched_reset_counts() { nlocks = npthread = 0; }
void sched_rules(int n) { nested_rule = n; }
void sched_expect_no_wait(int on) { Th& t = me(); t.nowait = on; t.nwtries = 0; t.nwedges = 0; }
}
static void worker_loop(int id) {
  self = id; Th& t = th[id];
  for (;;) { fwait(&t.word); in_sched = 1; acq(token[0]); in_sched = 0; body(id, barg); in_sched = 1; if (t.held) sched_fail("a thread finished while holding a mutex"); rel(token[1]); t.st = DONE;
    int n = pick(0, true); if (n >= 0) { cur = n; since = 0; fwake(&th[n].word); } 
    else { for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED) sched_fail("deadlock: every unfinished thread waits for a mutex"); active = false; fwake(&mainword); } in_sched = 0; }
}
static void* worker(void* p) { worker_loop(int(intptr_t(p))); return 0; }
extern "C" void sched_run(int n, void (*b)(int, void*), void* arg, const SchedDec* d, int ndec, int g) {
  while (started < n) { Th& t = th[started]; t.word = 0; pthread_create(&t.p, 0, worker, (void*)(intptr_t)started); ++started; }
  nth = n; body = b; barg = arg; decs = d; nd = ndec; di = 0; gran = g; cnt = since = total = 0; cur = 0; 
  for (int i = 0; i < n; ++i) { th[i].st = READY; th[i].held = 0; th[i].points = 0; th[i].quiet = 0; th[i].where = 0; th[i].nowait = 0; }
  rel(token[0]); active = true; fwake(&th[0].word); fwait(&mainword); acq(token[1]);
}
extern "C" {
void sched_m_init(SchedMutex* m) { m->owner = 0; m->magic = 0xC0FFEE; }
void sched_m_destroy(SchedMutex* m) { if (m->magic != 0xC0FFEE) sched_fail("destroying a mutex that is not alive"); if (m->owner) sched_fail("a locked mutex is destroyed"); m->magic = 0xDEAD; rel(m); }
static void got(SchedMutex* m) { Th& t = me(); m->owner = self + 2; if (self < 0) m->owner = 1; if (t.held < 16) t.hm[t.held] = m; ++t.held; ++nlocks; acq(m); }
void sched_m_lock(SchedMutex* m) {
  int q = in_sched; in_sched = 1; Th& t = me();
  if (m->magic != 0xC0FFEE) sched_fail("locking a mutex that is not alive");
  int id = self < 0 ? 1 : self + 2;
  if (m->owner == id) sched_fail("a thread locks a mutex it already holds");
  if (nested_rule && t.held) sched_fail("a thread waits for a mutex while holding another");
  if (active && self >= 0) { point();
    while (m->owner) { if (t.nowait) sched_fail("try_lock waits"); t.st = BLOCKED; t.on = m; int n = pick(0, true); if (n < 0) sched_fail("deadlock: every unfinished thread waits for a mutex"); give(n); if (m->magic != 0xC0FFEE) sched_fail("a mutex was destroyed while a thread waited for it"); } }
  else if (m->owner) sched_fail("deadlock: a mutex was left locked");
  got(m); in_sched = q;
}
int sched_m_trylock(SchedMutex* m) {
  int q = in_sched; in_sched = 1; if (m->magic != 0xC0FFEE) sched_fail("locking a mutex that is not alive"); if (active && self >= 0) point();
  int r = 0; if (!m->owner) { got(m); r = 1; } else if (me().nowait && ++me().nwtries > 8) sched_fail("try_lock waits: it tries again and again while the mutex is held"); in_sched = q; return r;
}
void sched_m_unlock(SchedMutex* m) {
  int q = in_sched; in_sched = 1; Th& t = me(); int id = self < 0 ? 1 : self + 2; 
  if (m->magic != 0xC0FFEE) sched_fail("unlocking a mutex that is not alive");
  if (m->owner != id) sched_fail(m->owner ? "unlocking a mutex another thread holds" : "unlocking a mutex that is not locked");
  rel(m); m->owner = 0; --t.held; 
  for (int i = 0; i < nth; ++i) if (active && th[i].st == BLOCKED && th[i].on == m) { th[i].st = READY; th[i].on = 0; }
  if (active && self >= 0) point(); in_sched = q;
}
int sched_m_owner(SchedMutex* m) { return m->owner; }
// the pthread mutexes of the code under test (linked with --wrap)
struct PM { SchedMutex m; int type; int count; };
static std::unordered_map<void*, PM>& pms() { static std::unordered_map<void*, PM>* m = new std::unordered_map<void*, PM>(); return *m; }
static PM& pm(pthread_mutex_t* p) { auto& m = pms(); auto i = m.find(p); if (i == m.end()) { PM x; sched_m_init(&x.m); x.type = 0; x.count = 0; i = m.emplace(p, x).first; } return i->second; }
int __wrap_pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t* a) { int q = in_sched; in_sched = 1; PM x; sched_m_init(&x.m); x.count = 0; x.type = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &x.type); pms()[p] = x; in_sched = q; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* p) { int q = in_sched; in_sched = 1; auto i = pms().find(p); if (i != pms().end()) { if (i->second.m.owner) sched_fail("a locked mutex is destroyed"); pms().erase(i); } in_sched = q; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* p) { ++npthread; PM& x = pm(p); int id = self < 0 ? 1 : self + 2; if (x.m.owner == id) { if (x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; } if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; } sched_m_lock(&x.m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* p) { ++npthread; PM& x = pm(p); int id = self < 0 ? 1 : self + 2; if (x.m.owner == id && x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; } return sched_m_trylock(&x.m) ? 0 : EBUSY; }
#define NOSLEEP(what) if (active && self >= 0 && th[self].nowait) sched_fail("try_lock waits: it " what)
int __real_sched_yield(); int __wrap_sched_yield() { NOSLEEP("yields"); return __real_sched_yield(); }
int __real_nanosleep(const struct timespec* a, struct timespec* b); int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { NOSLEEP("sleeps"); return __real_nanosleep(a, b); }
int __real_clock_nanosleep(int c, int f, const struct timespec* a, struct timespec* b); int __wrap_clock_nanosleep(int c, int f, const struct timespec* a, struct timespec* b) { NOSLEEP("sleeps"); return __real_clock_nanosleep(c, f, a, b); }
int __real_usleep(unsigned n); int __wrap_usleep(unsigned n) { NOSLEEP("sleeps"); return __real_usleep(n); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec*) { return __wrap_pthread_mutex_lock(p); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* p) { PM& x = pm(p); int id = self < 0 ? 1 : self + 2; if (x.m.owner == id && x.count > 0) { --x.count; return 0; } if (x.m.owner != id && x.type == PTHREAD_MUTEX_ERRORCHECK) return EPERM; sched_m_unlock(&x.m); return 0; }
}
